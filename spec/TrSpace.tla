------------------------------ MODULE TrSpace ------------------------------
(***************************************************************************)
(* Recorded histories of an eigenspace: the model is set, the complete     *)
(* spectrum certified (it is given, and TLC checks that it is one), the    *)
(* eigenspace built, screened, its counts adapted, and queried.            *)
(* st = [m, full, esp, egs] is what the history so far has established.     *)
(***************************************************************************)
EXTENDS Observe, Green

VARIABLES l, bad, st

Nothing == [m |-> <<>>, full |-> <<>>, esp |-> <<>>, egs |-> <<>>, sym |-> "sz"]
QSet(s) == {s[i].q : i \in DOMAIN s}
OnceEach(s) == \A i, j \in DOMAIN s : i # j => s[i].q # s[j].q
At(s, q) == s[CHOOSE i \in DOMAIN s : s[i].q = q]
Amp(A) == RMul("1e-10", Scale(A))

(* ---- the complete spectrum *)
FullFails(e) ==
   LET m == st.m
       ok(x) == /\ IsBasis(x.up, m.n, x.q[1]) /\ IsBasis(x.dw, m.n, x.q[2])
                /\ LET A == SzHam(m, x.up, x.dw) IN Len(x.w) = Len(A) /\ Eigenpairs(A, x.w, x.v, Amp(A))
   IN IF ~OnceEach(e.sectors) \/ QSet(e.sectors) # Sectors(m.n) THEN {"harness-sectors"}
      ELSE Failing(<< <<"spectrum-of-the-model", \A i \in DOMAIN e.sectors : ok(e.sectors[i])>> >>)
SetFull(e) == [st EXCEPT !.full = TLCEval([q \in QSet(e.sectors) |-> LET x == At(e.sectors, q) IN [up |-> x.up, dw |-> x.dw, w |-> RVec(x.w), v |-> RMat(x.v)]])]

(* ---- P09: building *)
AllSectors(m, sym) == IF sym = "sz" THEN Sectors(m.n) ELSE {<<k>> : k \in 0..(2 * m.n)}
DimOf(m, q) == IF Len(q) = 1 THEN Binom(2 * m.n, q[1]) ELSE Binom(m.n, q[1]) * Binom(m.n, q[2])
IndexOf(m, q) == IF Len(q) = 1 THEN q[1] + 1 ELSE SectorIndex(m.n, q[1], q[2]) + 1
Wanted(m, e, q) == IF e.counts = <<>> THEN DimOf(m, q) ELSE e.counts[IndexOf(m, q)]
MatrixOf(m, x) == IF Len(x.q) = 1 THEN NHam(m, x.states) ELSE SzHam(m, x.up, x.dw)
BasisOk(m, x) == IF Len(x.q) = 1 THEN IsBasis(x.states, 2 * m.n, x.q[1]) ELSE IsBasis(x.up, m.n, x.q[1]) /\ IsBasis(x.dw, m.n, x.q[2])
BuildFails(e) ==
   LET m == st.m
       S == e.sectors
       lowest(x) == LET A == MatrixOf(m, x) IN Lowest(A, x.w, x.v, Amp(A))
       emin == RMinSeq([i \in DOMAIN S |-> RMinSeq(S[i].w)])
   IN IF ~OnceEach(S) \/ ~(QSet(S) \subseteq AllSectors(m, e.sym)) THEN {"sectors"}
      ELSE IF \E i \in DOMAIN S : ~BasisOk(m, S[i]) \/ S[i].d # DimOf(m, S[i].q) THEN {"basis"}
      ELSE Failing(<< <<"sectors-asked-for", QSet(S) = {q \in AllSectors(m, e.sym) : Wanted(m, e, q) > 0}>>,
                      <<"in-order", \A i \in 1..(Len(S)-1) : IndexOf(m, S[i].q) < IndexOf(m, S[i+1].q)>>,
                      <<"count", \A i \in DOMAIN S : Len(S[i].w) = Wanted(m, e, S[i].q)>>,
                      <<"lowest-eigenpairs", \A i \in DOMAIN S : lowest(S[i])>>,
                      <<"ground-state", RNear(e.egs, emin, 0)>>,
                      <<"model-kept", e.kept>> >>)
(* A sector too large to be written out: sampled rows, and a reference for   *)
(* the eigenvalues that is itself tied to those rows by the residuals.       *)
LargeFails(e) ==
   LET m == st.m
       S == e.sectors
       row(x, r) == IF Len(x.q) = 1 THEN NRow(m, x.states, r + 1) ELSE SzRow(m, x.up, x.dw, r + 1)
       pairs(x) == /\ Ascending(x.w)
                   /\ Len(x.v) = Len(x.w) /\ \A k \in DOMAIN x.v : Len(x.v[k]) = DimOf(m, x.q)
                   /\ \A a, b \in DOMAIN x.v : RNear(RDot(x.v[a], x.v[b]), IF a = b THEN 1 ELSE 0, "1e-8")
                   /\ \A i \in DOMAIN x.rows : LET A == row(x, x.rows[i])
                                                IN \A k \in DOMAIN x.w : RNear(RDot(A, x.v[k]), RMul(x.w[k], x.v[k][x.rows[i] + 1]), "1e-6")
       lowest(x) == Len(x.w) <= Len(x.reference) /\ \A k \in DOMAIN x.w : RNear(x.w[k], x.reference[k], "1e-7")
   IN IF ~OnceEach(S) \/ ~(QSet(S) \subseteq AllSectors(m, e.sym)) THEN {"sectors"}
      ELSE IF \E i \in DOMAIN S : ~BasisOk(m, S[i]) \/ S[i].d # DimOf(m, S[i].q) THEN {"basis"}
      ELSE Failing(<< <<"sectors-asked-for", QSet(S) = {q \in AllSectors(m, e.sym) : Wanted(m, e, q) > 0}>>,
                      <<"count", \A i \in DOMAIN S : Len(S[i].w) = Wanted(m, e, S[i].q)>>,
                      <<"eigenpairs", \A i \in DOMAIN S : pairs(S[i])>>,
                      <<"lowest-eigenpairs", \A i \in DOMAIN S : lowest(S[i])>>,
                      <<"ground-state", RNear(e.egs, RMinSeq([i \in DOMAIN S |-> RMinSeq(S[i].w)]), 0)>>,
                      <<"model-kept", e.kept>> >>)
SetSpace(e) == [st EXCEPT !.egs = e.egs,
                          !.esp = TLCEval([i \in DOMAIN e.sectors |-> [q |-> e.sectors[i].q, w |-> e.sectors[i].w, v |-> e.sectors[i].v]])]
DimsFails(e) ==
   LET want(q) == IF e.max = 0 \/ DimOf(e, q) <= e.max THEN DimOf(e, q) ELSE e.max
       qs == AllSectors(e, e.sym)
   IN IF Len(e.out) # Cardinality(qs) THEN {"length"} ELSE Failing(<< <<"dimensions", \A q \in qs : e.out[IndexOf(e, q)] = want(q)>> >>)

(* ---- P11: screening and adapting.  A state within 1e-9 of the cutoff may  *)
(* go either way.                                                           *)
Kept(x, e) == {k \in DOMAIN x.w : RLt(RMul(e.beta, RSub(x.w[k], st.egs)), RNeg(RLn(e.cutoff)))}
Close(x, e) == {k \in DOMAIN x.w : RNear(RMul(e.beta, RSub(x.w[k], st.egs)), RNeg(RLn(e.cutoff)), "1e-9")}
ScreenedAs(x, e, y) ==     \* y: the sector afterwards
   \E K \in {(Kept(x, e) \ Close(x, e)) \cup T : T \in SUBSET Close(x, e)} :
      LET ks == SelectSeq([k \in DOMAIN x.w |-> k], LAMBDA k : k \in K)
      IN IF y = <<>> THEN ks = <<>>
         ELSE ks # <<>> /\ y.w = [j \in DOMAIN ks |-> x.w[ks[j]]] /\ y.v = [j \in DOMAIN ks |-> x.v[ks[j]]]
ScreenFails(e) ==
   LET S == e.sectors
       after(q) == IF q \in QSet(S) THEN At(S, q) ELSE <<>>
   IN IF ~OnceEach(S) \/ ~(QSet(S) \subseteq QSet(st.esp)) THEN {"sectors"}
      ELSE Failing(<< <<"relevant-states", \A i \in DOMAIN st.esp : ScreenedAs(st.esp[i], e, after(st.esp[i].q))>>,
                      <<"order-of-sectors", \A i, j \in DOMAIN S : i < j => IndexOf(st.m, S[i].q) < IndexOf(st.m, S[j].q)>>,
                      <<"basis-kept", \A i \in DOMAIN S : BasisOk(st.m, S[i]) /\ S[i].d = DimOf(st.m, S[i].q)>> >>)
Adapted(m, q, c) ==
   LET here == q \in QSet(st.esp)
       k == IF here THEN Len(At(st.esp, q).w) ELSE 0
       down == IF c - 1 > 1 THEN c - 1 ELSE 1
   IN IF here /\ k = c THEN (IF c + 1 < DimOf(m, q) THEN c + 1 ELSE DimOf(m, q))
      ELSE IF ~here \/ k < c THEN down ELSE c
AdaptFails(e) ==
   LET m == st.m
   IN IF Len(e.after) # Len(e.before) THEN {"length"}
      ELSE Failing(<< <<"adapted-counts", \A q \in Sectors(m.n) : e.after[IndexOf(m, q)] = Adapted(m, q, e.before[IndexOf(m, q)])>>,
                      <<"eigenspace-kept", e.kept>> >>)

(* ---- P16, P17, P18: Green functions *)
GreenFails(e, P, what) ==
   LET Z == Zsum(st.esp, e.beta, st.egs)
       (* the scale a value is judged on: its weights over the distance of z from the axis *)
       big(z) == RDiv(RSum([i \in DOMAIN P |-> RAbs(P[i][1])]), RMul(Z, RAbs(z[2])))
       tol(z) == RAdd("1e-11", RMul("2e-8", big(z)))
   IN IF Len(e.out) # Len(e.z) THEN {what \o ":shape"}
      ELSE Failing(<< <<what, \A i \in DOMAIN e.z : ROk(e.out[i][1]) /\ ROk(e.out[i][2]) /\ CNear(e.out[i], EvalPoles(P, Z, e.z[i]), tol(e.z[i]))>> >>)
LehmannPoles(e, p, p2) ==
   LET el == IF e.part = "hole" THEN <<>> ELSE Part(st.m.n, st.full, st.esp, e.beta, st.egs, p, p2, e.spin, 1)
       ho == IF e.part = "electron" THEN <<>> ELSE Part(st.m.n, st.full, st.esp, e.beta, st.egs, p, p2, e.spin, -1)
   IN el \o ho
GfFails(e) == GreenFails(e, LehmannPoles(e, e.pos, e.pos), "lehmann")
OffFails(e) == GreenFails(e, LehmannPoles(e, e.pos, e.pos2), "lehmann")
(* the function of c_a + c_b: the four elements together *)
PlusFails(e) == GreenFails(e, LehmannPoles(e, e.pos, e.pos) \o LehmannPoles(e, e.pos2, e.pos2) \o LehmannPoles(e, e.pos, e.pos2) \o LehmannPoles(e, e.pos2, e.pos), "lehmann-of-the-sum")
ExactFails(e) == GreenFails(e, Between(st.m.n, st.full, st.esp, e.beta, st.egs, e.pos, e.pos2, e.spin), "lehmann-between-states")
(* Weights and positivity of what was built, not only its values. *)
SumRuleFails(e) ==
   LET Z == Zsum(st.esp, e.beta, st.egs)
       W == IF e.total # <<>> THEN Weight(LehmannPoles(e, e.pos, e.pos)) ELSE R(0)
   IN Failing(<< <<"total-weight", e.total # <<>> => CNear(e.total, <<RDiv(W, Z), R(0)>>, "1e-6")>>,
                 <<"complete-is-one", (e.total # <<>> /\ e.complete) => CNear(e.total, <<R(1), R(0)>>, "1e-6")>>,
                 <<"negative-imaginary-part", \A i \in DOMAIN e.im : RLe(e.im[i], "1e-12")>>,
                 <<"spin-symmetric", e.other = <<>> \/ RFar(e.im, e.other, "1e-7") = 0>> >>)

(* ---- P19, P20 *)
OccFails(e) ==
   LET n == st.m.n
       w(s, out) == \A p \in 1..n : RNear(out[p], ThermalOcc(st.full, st.esp, e.beta, st.egs, p-1, s), "1e-9")
       num == RSum([i \in DOMAIN st.esp |-> RMul(st.esp[i].q[1] + st.esp[i].q[2], RSum([k \in DOMAIN st.esp[i].w |-> Boltz(e.beta, st.egs, st.esp[i].w[k])]))])
   IN IF Len(e.up) # n \/ Len(e.dw) # n THEN {"shape"}
      ELSE Failing(<< <<"expectation-value", w(0, e.up) /\ w(1, e.dw)>>,
                      <<"between-zero-and-one", \A p \in 1..n : RLe("-1e-12", e.up[p]) /\ RLe(e.up[p], "1.000000000001") /\ RLe("-1e-12", e.dw[p]) /\ RLe(e.dw[p], "1.000000000001")>>,
                      <<"mean-number", RNear(RAdd(RSum(e.up), RSum(e.dw)), RDiv(num, Zsum(st.esp, e.beta, st.egs)), "1e-8")>> >>)
VecOccFails(e) ==     \* nup[site][vector]
   IF Len(e.nup) # e.n \/ Len(e.ndw) # e.n \/ \E p \in 1..e.n : Len(e.nup[p]) # Len(e.v) \/ Len(e.ndw[p]) # Len(e.v) THEN {"shape"}
   ELSE Failing(<< <<"expectation-value", \A p \in 1..e.n, k \in DOMAIN e.v :
                        LET t == RMul("1e-11", RAdd(1, RMul(RAbs(e.c[k]), RDot(e.v[k], e.v[k]))))
                        IN /\ RNear(e.nup[p][k], RMul(e.c[k], Occ(e.su, e.sd, e.v[k], p-1, 0)), t)
                           /\ RNear(e.ndw[p][k], RMul(e.c[k], Occ(e.su, e.sd, e.v[k], p-1, 1)), t)>>,
                   <<"vectors-kept", e.kept>> >>)
NumberFails(e) ==     \* one vector, one site, both spins
   Failing(<< <<"expectation-value", RNear(e.out, RAdd(Occ(e.su, e.sd, e.v, e.pos, 0), Occ(e.su, e.sd, e.v, e.pos, 1)), RMul("1e-11", RAdd(1, RDot(e.v, e.v))))>> >>)
FreeFails(e) ==
   LET n == Len(e.ek)
       S == e.sectors
       lv == TLCEval([k \in 0..n |-> FreeLevels(e.ek, k)])
       want(q) == Flat([i \in DOMAIN lv[q[1]] |-> [j \in DOMAIN lv[q[2]] |-> RAdd(lv[q[1]][i], lv[q[2]][j])]])
       below(s, x) == Cardinality({i \in DOMAIN s : RLe(s[i], x)})
       (* the same multiset, within t: for every threshold between them *)
       alike(s, w, t) == /\ Len(s) = Len(w) /\ Ascending(s)
                         /\ \A i \in DOMAIN s : below(w, RAdd(s[i], t)) >= i /\ below(w, RSub(s[i], t)) <= i - 1
       t == RMul("1e-12", RAdd(1, RSum([i \in DOMAIN e.ek |-> RAbs(e.ek[i])])))
   IN IF ~OnceEach(S) \/ QSet(S) # Sectors(n) THEN {"sectors"}
      ELSE Failing(<< <<"levels", \A i \in DOMAIN S : alike(S[i].w, want(S[i].q), t)>>,
                      <<"basis", \A i \in DOMAIN S : IsBasis(S[i].up, n, S[i].q[1]) /\ IsBasis(S[i].dw, n, S[i].q[2])>>,
                      <<"ground-state", RNear(e.egs, RMinSeq([i \in DOMAIN S |-> RMinSeq(S[i].w)]), 0)>>,
                      <<"energies-kept", e.kept>> >>)
EntropyFails(e) ==
   LET n == Len(e.ek)
       lv == TLCEval([k \in 0..n |-> FreeLevels(e.ek, k)])
       bathw == Flat([a \in 1..((n+1)*(n+1)) |-> LET i == lv[(a-1) \div (n+1)]
                                                    j == lv[(a-1) % (n+1)]
                                                IN Flat([x \in DOMAIN i |-> [y \in DOMAIN j |-> RAdd(i[x], j[y])]])])
       w == Flat([i \in DOMAIN st.esp |-> st.esp[i].w])
   IN Failing(<< <<"entropy", RNear(RDiv(e.out, e.kB), RSub(Entropy(w, e.beta), Entropy(bathw, e.beta)), "1e-8")>>,
                 <<"boltzmann-constant", RRel(RDiv(e.kB, "8.617333262e-5"), 1, "1e-7")>> >>)

(* ---- P08: a query gives what it gave on a fresh eigenspace, and leaves    *)
(* everything as it was.                                                    *)
QueryFails(e) == Failing(<< <<"arguments-kept", e.kept>>, <<"same-answer", Len(e.out) = Len(e.fresh) /\ RFar(e.out, e.fresh, "1e-9") = 0>>,
                            <<"answers-alike", e.raised = e.raisedfresh>> >>)

Fails(e) == CASE e.op = "model" -> {}
              [] e.op = "full" -> FullFails(e)
              [] e.op = "build" -> BuildFails(e)
              [] e.op = "espace" -> {}
              [] e.op = "large" -> LargeFails(e)
              [] e.op = "dims" -> DimsFails(e)
              [] e.op = "screen" -> ScreenFails(e)
              [] e.op = "adapt" -> AdaptFails(e)
              [] e.op = "gf" -> GfFails(e)
              [] e.op = "off" -> OffFails(e)
              [] e.op = "plus" -> PlusFails(e)
             [] e.op = "exact" -> ExactFails(e)
              [] e.op = "sumrule" -> SumRuleFails(e)
              [] e.op = "occ" -> OccFails(e)
              [] e.op = "vecocc" -> VecOccFails(e)
              [] e.op = "number" -> NumberFails(e)
              [] e.op = "free" -> FreeFails(e)
              [] e.op = "entropy" -> EntropyFails(e)
              [] e.op = "query" -> QueryFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})
After(e) == CASE e.op = "case" -> Nothing
              [] e.op = "model" -> [Nothing EXCEPT !.m = e.m]
              [] e.op = "full" -> SetFull(e)
              [] e.op \in {"build", "espace", "screen"} -> SetSpace(IF e.op = "screen" THEN [sectors |-> e.sectors, egs |-> st.egs] ELSE e)
              [] OTHER -> st

Init == l = 1 /\ bad = <<>> /\ st = Nothing
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ st' = After(Log[l])
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
