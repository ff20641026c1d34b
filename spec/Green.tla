------------------------------- MODULE Green -------------------------------
(***************************************************************************)
(* Eigenspaces and what is computed from them.                             *)
(*                                                                         *)
(* A complete spectrum F is a function from charge sectors <<nup, ndw>> to *)
(* [up, dw, w, v]: the bases of the two spins, all eigenvalues and the     *)
(* eigenvectors (v[k] belongs to w[k]).  An eigenspace X is a sequence of  *)
(* [q, w, v], sectors with some of their eigenpairs, each sector once.     *)
(***************************************************************************)
EXTENDS Ham, LinAlg

Sectors(n) == {<<a, b>> : a \in 0..n, b \in 0..n}
Beside(n, q, s, step) == LET r == IF s = 0 THEN <<q[1]+step, q[2]>> ELSE <<q[1], q[2]+step>>
                         IN IF r \in Sectors(n) THEN r ELSE <<>>

(* Eigenpairs of the symmetric matrix A; all of them when they are as many. *)
Eigenpairs(A, w, v, t) == /\ Lengths(v, Len(w), Len(A)) /\ Finite(w) /\ Ascending(w)
                          /\ Residuals(A, w, v, t) /\ Orthonormal(v, "1e-9")
Lowest(A, w, v, t) == Eigenpairs(A, w, v, t) /\ (Len(w) = Len(A) \/ EigenvaluesFrom(A, w, 0, t))

(* c_p (step -1) or c+_p (step 1) of spin s from the sector with bases up, dw  *)
(* to the one with bases up2, dw2, as a list with, for every row of the     *)
(* target, <<sign, row of the source>>; sign 0 where there is none.         *)
Move(n, up, dw, up2, dw2, p, s, step) ==
   LET b1 == IF s = 0 THEN up ELSE dw
       b2 == IF s = 0 THEN up2 ELSE dw2
       src(x) == IF Bit(x, p) = (IF step = 1 THEN 1 ELSE 0)
                 THEN LET y == x - step * P2[p] IN <<JWSign(y, p, n), IndexIn(b1, y)>> ELSE <<0, 0>>
       k == TLCEval([i \in DOMAIN b2 |-> src(b2[i])])
       d2 == Len(up2)
   IN TLCEval([r \in 1..(d2 * Len(dw2)) |->
         LET a == ((r-1) % d2) + 1
             b == ((r-1) \div d2) + 1
         IN IF s = 0 THEN <<k[a][1], IF k[a][1] = 0 THEN 0 ELSE k[a][2] + Len(up) * (b-1) + 1>>
            ELSE <<k[b][1], IF k[b][1] = 0 THEN 0 ELSE (a-1) + Len(up) * k[b][2] + 1>>])
Moved(mv, v) == [r \in DOMAIN mv |-> IF mv[r][1] = 0 THEN R(0) ELSE IF mv[r][1] = 1 THEN v[mv[r][2]] ELSE RNeg(v[mv[r][2]])]

(* Amplitudes <j|op|l> for the eigenvectors vI[l] and vJ[j]: amp[l][j].     *)
Amps(mv, vI, vJ) == TLCEval([l \in DOMAIN vI |-> RMatVec(vJ, Moved(mv, vI[l]))])

Boltz(beta, egs, w) == RExp(RNeg(RMul(beta, RSub(w, egs))))
Zsum(X, beta, egs) == RSum([i \in DOMAIN X |-> RSum([k \in DOMAIN X[i].w |-> Boltz(beta, egs, X[i].w[k])])])

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1]
           ELSE LET h == Len(s) \div 2 IN Flat(SubSeq(s, 1, h)) \o Flat(SubSeq(s, h+1, Len(s)))

(***************************************************************************)
(* Lehmann representation of the element (p, p2) of spin s: the poles and  *)
(* weights (times Z) that the states of X contribute by going to all the   *)
(* states of the neighbouring sectors, with one electron more (step 1) or  *)
(* less (step -1).                                                         *)
(***************************************************************************)
Part(n, F, X, beta, egs, p, p2, s, step) ==
   LET one(x) ==
         LET r == Beside(n, x.q, s, step)
         IN IF r = <<>> THEN <<>>
            ELSE LET I == F[x.q]
                     J == F[r]
                     a == Amps(Move(n, I.up, I.dw, J.up, J.dw, p, s, step), x.v, J.v)
                     b == IF p = p2 THEN a ELSE Amps(Move(n, I.up, I.dw, J.up, J.dw, p2, s, step), x.v, J.v)
                 IN Flat([l \in DOMAIN x.w |->
                      LET g == Boltz(beta, egs, x.w[l])
                      IN [j \in DOMAIN J.w |-> <<RMul(g, RMul(a[l][j], b[l][j])),
                             IF step = 1 THEN RSub(J.w[j], x.w[l]) ELSE RSub(x.w[l], J.w[j])>>]])
   IN TLCEval(Flat([i \in DOMAIN X |-> one(X[i])]))

(* Transitions between the states of X alone, each with both weights.       *)
Between(n, F, X, beta, egs, p, p2, s) ==
   LET at(q) == {j \in DOMAIN X : X[j].q = q}
       one(x) ==
         LET r == Beside(n, x.q, s, 1)
         IN IF r = <<>> \/ at(r) = {} THEN <<>>
            ELSE LET y == X[CHOOSE j \in at(r) : TRUE]
                     I == F[x.q]
                     J == F[r]
                     a == Amps(Move(n, I.up, I.dw, J.up, J.dw, p, s, 1), x.v, y.v)
                     b == IF p = p2 THEN a ELSE Amps(Move(n, I.up, I.dw, J.up, J.dw, p2, s, 1), x.v, y.v)
                 IN Flat([l \in DOMAIN x.w |-> [j \in DOMAIN y.w |->
                       <<RMul(RAdd(Boltz(beta, egs, x.w[l]), Boltz(beta, egs, y.w[j])), RMul(a[l][j], b[l][j])), RSub(y.w[j], x.w[l])>>]])
   IN TLCEval(Flat([i \in DOMAIN X |-> one(X[i])]))

EvalPoles(P, Z, z) == LET g == Poles([i \in DOMAIN P |-> P[i][1]], [i \in DOMAIN P |-> P[i][2]], z) IN <<RDiv(g[1], Z), RDiv(g[2], Z)>>
Weight(P) == RSum([i \in DOMAIN P |-> P[i][1]])

(* <n_ps> in a vector of the sector with bases up, dw *)
Occ(up, dw, v, p, s) ==
   LET d == Len(up)
   IN RSum([r \in DOMAIN v |-> IF Bit(IF s = 0 THEN up[((r-1) % d) + 1] ELSE dw[((r-1) \div d) + 1], p) = 1 THEN RMul(v[r], v[r]) ELSE R(0)])
ThermalOcc(F, X, beta, egs, p, s) ==
   RDiv(RSum([i \in DOMAIN X |-> RSum([k \in DOMAIN X[i].w |->
            RMul(Boltz(beta, egs, X[i].w[k]), Occ(F[X[i].q].up, F[X[i].q].dw, X[i].v[k], p, s))])]), Zsum(X, beta, egs))

(* Entropy over kB of levels w at inverse temperature beta. *)
Entropy(w, beta) ==
   LET e0 == RMinSeq(w)
       g == TLCEval([i \in DOMAIN w |-> Boltz(beta, e0, w[i])])
       z == RSum(g)
   IN RAdd(RLn(z), RDiv(RMul(beta, RDot(g, [i \in DOMAIN w |-> RSub(w[i], e0)])), z))

(* The levels of free particles: every subset of the modes. *)
FreeLevels(ek, k) ==
   LET n == Len(ek)
       b == Basis(n, k)
   IN TLCEval([i \in DOMAIN b |-> RSum([j \in 1..n |-> IF Bit(b[i], j-1) = 1 THEN R(ek[j]) ELSE R(0)])])
=============================================================================
