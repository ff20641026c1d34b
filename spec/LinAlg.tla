------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Linear algebra said by what characterises its results, so that results  *)
(* can be certified: eigenvalues by Sylvester's inertia, eigenvectors by   *)
(* their equation, Krylov bases by exact orthogonalisation.                *)
(***************************************************************************)
EXTENDS Cx

Abs1(v) == RSum([i \in DOMAIN v |-> RAbs(v[i])])
NormA(A) == RMaxSeq([i \in DOMAIN A |-> Abs1(A[i])])
Scale(A) == RAdd(1, NormA(A))
Norm2(v) == RDot(v, v)
Norm(v) == RSqrt(Norm2(v))
VAdd(a, b) == [i \in DOMAIN a |-> RAdd(a[i], b[i])]
VSub(a, b) == [i \in DOMAIN a |-> RSub(a[i], b[i])]
VScale(t, a) == [i \in DOMAIN a |-> RMul(t, a[i])]
Ascending(w) == \A i \in 1..(Len(w)-1) : RLe(w[i], w[i+1])
Finite(w) == \A i \in DOMAIN w : ROk(w[i])
Square(A, n) == Len(A) = n /\ \A i \in DOMAIN A : Len(A[i]) = n

Below(A, s) == LET a == RInertia(A, s) IN IF a # -1 THEN a ELSE RInertia(A, RAdd(s, "3.14159e-18"))

(* w are the eigenvalues number lo+1 .. lo+Len(w) of the symmetric A. *)
EigenvaluesFrom(A, w, lo, t) ==
   /\ Ascending(w) /\ Finite(w)
   /\ \A k \in DOMAIN w : /\ Below(A, RSub(w[k], t)) <= lo + k - 1
                          /\ Below(A, RAdd(w[k], t)) >= lo + k
(* V[k] belongs to w[k] *)
Residuals(A, w, V, t) == \A k \in DOMAIN w : RFar(RMatVec(A, V[k]), RVec(VScale(w[k], V[k])), t) = 0
Orthonormal(V, t) == \A i, j \in DOMAIN V : j <= i => RNear(RDot(V[i], V[j]), IF i = j THEN 1 ELSE 0, t)
Lengths(V, k, n) == Len(V) = k /\ \A i \in DOMAIN V : Len(V[i]) = n

TriMatrix(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a |->
     IF i = j THEN R(a[i]) ELSE IF j = i + 1 THEN R(b[i]) ELSE IF i = j + 1 THEN R(b[j]) ELSE R(0)]]

(* b1/(z-a1-b2/(z-a2-...)) as the ratio of the two solutions of the          *)
(* three-term recurrence  p(k) = (z-a(k)) p(k-1) - b(k) p(k-2); they are     *)
(* rescaled together, which leaves the ratio.                               *)
RECURSIVE ThreeTerm(_,_,_,_,_,_)
ThreeTerm(a, b, z, k, p, q) ==        \* p, q: <<value at k-1, value at k-2>>
   IF k > Len(a) THEN CDiv(p[1], q[1])
   ELSE LET x == CSub(z, CReal(a[k]))
            f == RDiv(1, RSqrt(RAdd(RAdd(CAbs2(q[1]), CAbs2(q[2])), RAdd(CAbs2(p[1]), CAbs2(p[2])))))
            st(u) == TLCEval(<<CScale(f, CSub(CMul(x, u[1]), CScale(b[k], u[2]))), CScale(f, u[1])>>)
        IN ThreeTerm(a, b, z, k + 1, st(p), st(q))
Fraction(a, b, z) == ThreeTerm(a, b, z, 1, <<C(0, 0), C(-1, 0)>>, <<C(1, 0), C(0, 0)>>)

(* Orthonormal basis of the span of the vectors, in order; vectors that     *)
(* depend on earlier ones are left out.                                     *)
RECURSIVE Against(_,_)
Against(v, Q) == IF Q = <<>> THEN v ELSE Against(VSub(v, VScale(RDot(v, Head(Q)), Head(Q))), Tail(Q))
Ortho(v, Q) == TLCEval(Against(TLCEval(Against(v, Q)), Q))

(* The block Krylov basis: candidates are the start vectors, then A times   *)
(* each basis vector in order.                                              *)
RECURSIVE Krylov(_,_,_,_,_)
Krylov(A, todo, Q, next, size) ==
   IF Len(Q) = size THEN Q
   ELSE IF todo = <<>> THEN IF next > Len(Q) THEN Q ELSE Krylov(A, <<RMatVec(A, Q[next])>>, Q, next + 1, size)
   ELSE LET r == Ortho(Head(todo), Q)
            n2 == Norm2(r)
        IN IF RLe(n2, "1e-40") THEN Krylov(A, Tail(todo), Q, next, size)
           ELSE Krylov(A, Tail(todo), Append(Q, TLCEval(RVec(VScale(RDiv(1, RSqrt(n2)), r)))), next, size)
Projected(A, Q) == TLCEval([i \in DOMAIN Q |-> LET w == RMatVec(A, Q[i]) IN [j \in DOMAIN Q |-> RDot(w, Q[j])]])
=============================================================================
