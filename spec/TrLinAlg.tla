------------------------------ MODULE TrLinAlg ------------------------------
(***************************************************************************)
(* Recorded runs of the linear algebra the library rests on:               *)
(*   P14 tridiagonal solver, P15 continued fractions, P10 sparse solver,   *)
(*   P12 Lanczos (a state machine: Start, Step, Step, ..., Stop),          *)
(*   P13 orthogonalisation and block Lanczos, P27 stationary distribution. *)
(***************************************************************************)
EXTENDS Observe, LinAlg

VARIABLES l, bad, st

(* ---- P14 *)
TriFails(e) ==
   LET n == Len(e.a)
       T == TriMatrix(e.a, e.b)
       k == IF e.select = 0 THEN n ELSE e.hi - e.lo + 1
       lo == IF e.select = 0 THEN 0 ELSE e.lo
       t == RMul("1e-13", RMul(n + 4, Scale(T)))
       tv == RMul("1e-9", Scale(T))
   IN IF Len(e.w) # k THEN {"count"}
      ELSE Failing(<< <<"eigenvalues", EigenvaluesFrom(T, e.w, lo, t)>>,
                      <<"inputs-kept", e.same>> >>)
           \cup (IF ~e.vec THEN {} ELSE IF ~Lengths(e.v, k, n) THEN {"vector-shape"}
                 ELSE Failing(<< <<"eigenvectors", Residuals(T, e.w, e.v, tv)>>,
                                 <<"orthonormal", Orthonormal(e.v, "1e-8")>> >>))

(* ---- P15 *)
FractionFails(e) ==
   IF Len(e.out) # Len(e.z) THEN {"one-value-per-frequency"}
   ELSE Failing(<< <<"resolvent", \A i \in DOMAIN e.z : CRel(e.out[i], Fraction(e.a, e.b, C(e.z[i][1], e.z[i][2])), e.tol)>>,
                   <<"inputs-kept", e.same>>, <<"each-alone", e.alone>>, <<"wrapper", e.wrapped>> >>)

(* ---- P10 *)
SparseFails(e) ==
   LET t == RMul("1e-10", Scale(e.A))
   IN IF Len(e.w) # e.nev \/ ~Lengths(e.v, e.nev, Len(e.A)) THEN {"count"}
      ELSE Failing(<< <<"lowest", EigenvaluesFrom(e.A, e.w, 0, t)>>,
                      <<"eigenvectors", Residuals(e.A, e.w, e.v, RMul("1e-7", Scale(e.A)))>>,
                      <<"orthonormal", Orthonormal(e.v, "1e-8")>>,
                      <<"start-kept", e.same>> >>)
SectorFails(e) ==
   IF Len(e.w) # e.nev THEN {"count"}
   ELSE Failing(<< <<"sparse-agrees-with-dense", RFar(e.w, SubSeq(e.dense, 1, e.nev), "1e-8") = 0>>,
                   <<"ascending", Ascending(e.w)>>,
                   <<"eigenvectors", \A i \in DOMAIN e.Hv : RFar(e.Hv[i], RVec(VScale(e.w[i], e.v[i])), "1e-6") = 0>>,
                   <<"orthonormal", Orthonormal(e.v, "1e-8")>> >>)

(* ---- P27 *)
Colsums(W) == [j \in DOMAIN W |-> RSum([i \in DOMAIN W |-> W[i][j]])]
RateFails(e) ==
   LET big == RMaxSeq([i \in DOMAIN e.W |-> RAbs(e.W[i][i])])
       t == RMul("1e-13", RMul(Len(e.W) + 4, big))
   IN IF Len(e.p) # Len(e.W) \/ ~Finite(e.p) THEN {"shape"}
      ELSE Failing(<< <<"stationary", \A i \in DOMAIN e.W : RNear(RDot(e.W[i], e.p), 0, t)>>,
                      <<"non-negative", \A i \in DOMAIN e.p : RLe("-1e-10", e.p[i])>>,
                      <<"normalised", RNear(RSum(e.p), 1, "1e-10")>>,
                      <<"scale-free", e.scaled = <<>> \/ (Len(e.scaled) = Len(e.p) /\ RFar(e.p, e.scaled, "1e-7") = 0)>>,
                      <<"permuted", e.perm = <<>> \/ (Len(e.perm) = Len(e.p) /\ RFar(e.p, e.perm, "1e-7") = 0)>>,
                      <<"generator-kept", e.same>> >>)

(* ---- P12: the Lanczos state machine.  st = [A, w, v, l, n, as, bs, sc].   *)
(* A step takes the normalised residual of the last one.                    *)
LancStart(e) == [kind |-> "lanczos", A |-> e.A, par |-> e, as |-> <<>>, bs |-> <<>>,
                 r |-> RVec(e.phi0), v |-> RVec([i \in DOMAIN e.phi0 |-> 0]), sc |-> RAdd(Scale(e.A), Norm(e.phi0))]
LancStep(s, e) ==
   LET b == Norm(s.r)
       w == RMatVec(s.A, e.v)
       a == RDot(e.v, w)
   IN [s EXCEPT !.as = Append(@, a), !.bs = Append(@, b), !.v = RVec(e.v),
                !.r = RVec(VSub(VSub(w, VScale(a, e.v)), VScale(b, s.v)))]
StepFails(s, e) ==
   LET b == Norm(s.r)
       first == s.as = <<>>
       t == IF first THEN R("1e-12") ELSE RMul("1e-12", RDiv(RMul(Len(e.v) + 1, s.sc), b))
   IN IF Len(e.v) # Len(s.A) THEN {"step-shape"}
      ELSE IF RLe(b, RMul("1e-11", s.sc)) THEN {}     \* the space is exhausted: only rounding is left
      ELSE Failing(<< <<"recurrence", RFar(VScale(b, e.v), s.r, RMul(t, RMaxOf(b, "1e-30"))) = 0>>,
                      <<"unit-vector", RNear(Norm2(e.v), 1, "1e-12")>> >>)
Prefix(s, n) == SubSeq(s, 1, n)
LowestOf(a, b, x, t) == LET T == TriMatrix(a, Tail(b)) IN Below(T, RSub(x, t)) = 0 /\ Below(T, RAdd(x, t)) >= 1
StopFails(s, e) ==
   LET n == Len(e.a)
       m == Len(s.as)
       p == s.par
       ct == RMul("1e-12", RMul(Len(s.A) + 1, s.sc))
   IN IF Len(e.b) # n \/ n > m \/ n = 0 THEN {"coefficient-count"}
      ELSE Failing(<< <<"diagonal", RFar(e.a, Prefix(s.as, n), ct) = 0>>,
                      <<"off-diagonal", RFar(e.b, Prefix(s.bs, n), ct) = 0 /\ \A i \in DOMAIN e.b : RLe(0, e.b[i])>>,
                      <<"stop-reason", \/ n = p.maxn - 1 /\ m = p.maxn
                                       \/ n = m - 1 /\ RLe(s.bs[m], RMaxOf(RMul(2, p.delta), RMul("1e-13", s.sc)))
                                       \/ n = m /\ n = 1
                                       \/ /\ n = m /\ n > p.ND /\ n % p.ND = 0
                                          /\ Len(e.egs) = 2
                                          /\ LowestOf(e.a, e.b, e.egs[2], ct)
                                          /\ LowestOf(Prefix(e.a, n - p.ND), Prefix(e.b, n - p.ND), e.egs[1], ct)
                                          /\ RNear(e.egs[1], e.egs[2], RAdd(p.tol, RMul(4, ct)))>>,
                      <<"within-limit", n <= p.maxn>> >>)
(* Second pass: Ritz pairs. e.w, e.x for the tridiagonal (a, b). *)
RitzFails(e) ==
   LET T == TriMatrix(e.a, Tail(e.b))
       sc == Scale(e.A)
       k == IF e.select = 0 THEN Len(e.a) ELSE e.hi - e.lo + 1
       lo == IF e.select = 0 THEN 0 ELSE e.lo
   IN IF Len(e.w) # k THEN {"ritz-count"}
      ELSE Failing(<< <<"ritz-values", EigenvaluesFrom(T, e.w, lo, RMul("1e-11", sc))>> >>)
           \cup (IF e.x = <<>> THEN {} ELSE IF ~Lengths(e.x, k, Len(e.A)) THEN {"ritz-shape"}
                 ELSE Failing(<< <<"ritz-normalised", Orthonormal(e.x, "1e-7")>>,
                                 <<"ritz-quotient", \A i \in DOMAIN e.w : RNear(RDot(e.x[i], RMatVec(e.A, e.x[i])), e.w[i], RMul("1e-7", sc))>>,
                                 <<"ritz-residual", e.full => Residuals(e.A, e.w, e.x, RMul("1e-6", sc))>> >>))
(* A zero vector is reported. *)
ZeroFails(e) == Failing(<< <<"zero-vector-reported", e.reported>> >>)

(* ---- P13 *)
SpanFails(e) ==      \* e.x inputs, e.y outputs (lists of vectors), e.unit
   LET n == Len(e.x)
   IN IF ~Lengths(e.y, n, Len(e.x[1])) THEN {"shape"}
      ELSE LET nrm == [i \in DOMAIN e.y |-> Norm2(e.y[i])]
               xs == RMaxSeq([i \in DOMAIN e.x |-> Norm(e.x[i])])
           IN Failing(<< <<"orthogonal", \A i, j \in DOMAIN e.y : j < i =>
                               RLe(RAbs(RDot(e.y[i], e.y[j])), RMul("1e-7", RSqrt(RMul(nrm[i], nrm[j]))))>>,
                         <<"unit", e.unit => \A i \in DOMAIN e.y : RNear(nrm[i], 1, "1e-9")>>,
                         <<"component", ~e.unit => \A i \in DOMAIN e.y : RRel(RDot(e.x[i], e.y[i]), nrm[i], "1e-7")>>,
                         <<"same-span", \A i \in DOMAIN e.x :
                               RFar(e.x[i], RVec([c \in DOMAIN e.x[i] |->
                                      RSum([j \in 1..i |-> RMul(RDiv(RDot(e.x[i], e.y[j]), nrm[j]), e.y[j][c])])]), RMul("1e-7", xs)) = 0>>,
                         <<"inputs-kept", e.same>> >>)
(* T is the projection of A on the block Krylov basis, as far as the exact  *)
(* basis goes: once it is exhausted, only rounding separates the recursion  *)
(* from its end, and what it appends is not judged unless the arithmetic of *)
(* the case is exact (e.exact).                                             *)
BlockFails(e) ==
   LET n == Len(e.T)
       Q == Krylov(e.A, [i \in DOMAIN e.phi |-> RVec(e.phi[i])], <<>>, 1, Len(e.A))
       m == IF n < Len(Q) THEN n ELSE Len(Q)
       P == Projected(e.A, Q)
       t == RMul("1e-7", Scale(e.A))
   IN IF ~Square(e.T, n) THEN {"shape"}
      ELSE Failing(<< <<"projection", \A i, j \in 1..m : RNear(e.T[i][j], P[i][j], t)>>,
                      <<"symmetric", \A i, j \in 1..m : RNear(e.T[i][j], e.T[j][i], t)>>,
                      <<"complete", e.full => n >= Len(Q)>>,
                      <<"deflated", e.exact => n = Len(Q)>>,
                      <<"compares-as-often-as-asked", e.every # <<>> => n = IF 2 * e.every[1] < Len(Q) THEN 2 * e.every[1] ELSE Len(Q)>> >>)

Fails(s, e) ==
   CASE e.op = "tri" -> TriFails(e)
     [] e.op = "fraction" -> FractionFails(e)
     [] e.op = "eigsh" -> SparseFails(e)
     [] e.op = "sector" -> SectorFails(e)
     [] e.op = "rates" -> RateFails(e)
     [] e.op = "step" -> IF s = <<>> THEN {"step-before-start"} ELSE StepFails(s, e)
     [] e.op = "stop" -> IF s = <<>> THEN {"stop-before-start"} ELSE StopFails(s, e)
     [] e.op = "ritz" -> RitzFails(e)
     [] e.op = "zero" -> ZeroFails(e)
     [] e.op = "span" -> SpanFails(e)
     [] e.op = "block" -> BlockFails(e)
     [] e.op \in {"case", "start"} -> {}
     [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})

After(s, e) == IF e.op = "start" THEN LancStart(e)
               ELSE IF e.op = "step" /\ s # <<>> THEN LancStep(s, e)
               ELSE IF e.op \in {"case", "stop"} THEN <<>> ELSE s

Init == l = 1 /\ bad = <<>> /\ st = <<>>
Next == /\ l <= Len(Log)
        /\ st' = After(st, Log[l])
        /\ bad' = Note(bad, l, Fails(st, Log[l]))
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
