------------------------------- MODULE TrMpi -------------------------------
(* Recorded runs of P processes: transposes (P28), the distributed operator, *)
(* Lanczos and occupations (P29).                                            *)
EXTENDS Observe, Sparse, LinAlg, Transpose

VARIABLES l, bad

(* ---- P28.  e.G: the whole matrix; blocks[p+1] what process p ended with. *)
TransposeFails(e) ==
   LET N == Len(e.G)
       m == N \div e.P
       G(i, j) == e.G[i+1][j+1]
       want(fn, p) == IF fn = "dw" THEN ColBlock(G, N, m, p) ELSE RowBlock(G, N, m, p)
   IN IF Len(e.blocks) # e.P THEN {"every-process-answers"}
      ELSE Failing(<< <<"own-block", \A p \in 0..(e.P-1) : e.blocks[p+1] = want(e.fn, p)>>,
                      <<"type-kept", e.typed>>,
                      <<"completes", e.errors = <<>> >> >>)
RefusedFails(e) == Failing(<< <<"refused", Len(e.errors) = e.P /\ \A p \in DOMAIN e.errors : e.errors[p] # "">>,
                              <<"refused-not-hung", \A p \in DOMAIN e.errors : e.errors[p] # "Deadlock">> >>)

(* ---- P29 *)
Joined(blocks) == LET F[p \in 0..Len(blocks)] == IF p = 0 THEN <<>> ELSE F[p-1] \o blocks[p] IN F[Len(blocks)]
Zero(v) == [k \in DOMAIN v |-> R(0)]
Apply(e, v) == LET a == TLCEval([k \in DOMAIN v |-> RMul(e.diag[k], v[k])])
               IN DwProduct(e.dw, v, UpProduct(e.up, v, a))
Bound(e, v) == RMul("1e-11", RMul(RAdd(1, RAdd(RAdd(Size(e.up.data), Size(e.dw.data)), Size(e.diag))), RAdd(1, Size(v))))
ProductFails(e) ==
   Failing(<< <<"completes", e.errors = <<>> >>,
              <<"product", e.errors = <<>> => RFar(Joined(e.out), Apply(e, e.v), Bound(e, e.v)) = 0>>,
              <<"vector-kept", e.kept>> >>)

(* Lanczos on P processes: same coefficients on all, those of the exact      *)
(* recurrence as far as e.exact steps.                                      *)
RECURSIVE Recur(_,_,_,_,_,_)
Recur(e, v, w, as, bs, k) ==       \* v: not yet normalised, w: previous (normalised)
   IF k = 0 THEN <<as, bs>>
   ELSE LET b == Norm(v)
            u == TLCEval(RVec(VScale(RDiv(1, b), v)))
            Hu == Apply(e, u)
            a == RDot(u, Hu)
        IN Recur(e, TLCEval(RVec(VSub(VSub(Hu, VScale(a, u)), VScale(b, w)))), u, Append(as, a), Append(bs, b), k - 1)
LanczosFails(e) ==
   IF e.errors # <<>> THEN {"completes"}
   ELSE LET k == IF Len(e.a[1]) < e.exact THEN Len(e.a[1]) ELSE e.exact
            c == Recur(e, RVec(e.v), Zero(e.v), <<>>, <<>>, k)
        IN Failing(<< <<"same-on-all", \A p \in DOMAIN e.a : e.a[p] = e.a[1] /\ e.b[p] = e.b[1]>>,
                      <<"same-length", Len(e.b[1]) = Len(e.a[1])>>,
                      <<"as-many-steps", e.steps = Len(e.a[1])>>,
                      <<"coefficients", RFar(SubSeq(e.a[1], 1, k), c[1], "1e-7") = 0 /\ RFar(SubSeq(e.b[1], 1, k), c[2], "1e-7") = 0>> >>)
RitzFails(e) ==
   IF e.errors # <<>> THEN {"completes"}
   ELSE LET k == Len(e.w[1])
            X == [i \in 1..k |-> Joined([p \in DOMAIN e.x |-> e.x[p][i]])]
            t == RMul("1e-5", RAdd(1, RAdd(RAdd(Size(e.up.data), Size(e.dw.data)), Size(e.diag))))
        IN Failing(<< <<"same-on-all", \A p \in DOMAIN e.w : e.w[p] = e.w[1]>>,
                      <<"ritz-value", RFar(e.w[1], e.serial, RMul("1e-4", t)) = 0>>,
                      <<"ritz-vector", \A i \in 1..k : RFar(Apply(e, RVec(X[i])), RVec(VScale(e.w[1][i], X[i])), t) = 0>>,
                      (* beyond exhaustion the Lanczos vectors repeat, and their sums have any norm *)
                      <<"ritz-normalised", \A i \in 1..k : e.short => RNear(Norm2(X[i]), 1, "1e-7")>> >>)

(* Occupations: evecs[k] over the whole sector, weights. *)
BitOf(s, i) == (s \div (2^i)) % 2
OccupationFails(e) ==
   IF e.errors # <<>> THEN {"completes"}
   ELSE LET nu == Len(e.su)
            nd == Len(e.sd)
            occ(k, i, spin) == RMul(e.coeffs[k], RSum([q \in 1..(nu * nd) |->
                LET s == IF spin = "up" THEN e.su[((q-1) % nu) + 1] ELSE e.sd[((q-1) \div nu) + 1]
                IN IF BitOf(s, i - 1) = 1 THEN RMul(e.evecs[k][q], e.evecs[k][q]) ELSE R(0)]))
            right(o, spin) == Len(o) = e.n /\ \A i \in 1..e.n : Len(o[i]) = Len(e.evecs)
                              /\ \A k \in DOMAIN e.evecs : RNear(o[i][k], occ(k, i, spin), "1e-9")
        IN Failing(<< <<"occupation-up", \A p \in DOMAIN e.nup : right(e.nup[p], "up")>>,
                      <<"occupation-down", \A p \in DOMAIN e.ndw : right(e.ndw[p], "dw")>> >>)

Fails(e) == CASE e.op = "transpose" -> TransposeFails(e)
              [] e.op = "refused" -> RefusedFails(e)
              [] e.op = "product" -> ProductFails(e)
              [] e.op = "lanczos" -> LanczosFails(e)
              [] e.op = "ritz" -> RitzFails(e)
              [] e.op = "occupation" -> OccupationFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})

Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
