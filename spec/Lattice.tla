------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Local Green functions of a lattice and of a cluster, and the impurity   *)
(* problem they define.                                                    *)
(*                                                                         *)
(* A self-energy is given by its values.  Dyson: 1/G = z + mu - D - S with *)
(* D the hybridisation and S the self-energy; the Weiss field is           *)
(* 1/G + S = z + mu - D.                                                   *)
(***************************************************************************)
EXTENDS Cx

One == <<R(1), R(0)>>
Zero == <<R(0), R(0)>>
ZMu(z, mu) == <<RAdd(z[1], mu), R(z[2])>>

(* Determinants and inverses of small complex matrices, by expansion. *)
Minor(A, i, j) == [r \in 1..(Len(A)-1) |-> [c \in 1..(Len(A)-1) |-> A[IF r < i THEN r ELSE r+1][IF c < j THEN c ELSE c+1]]]
RECURSIVE CDet(_)
CDet(A) == IF A = <<>> THEN One
           ELSE CSum([j \in 1..Len(A) |-> LET t == CMul(A[1][j], CDet(Minor(A, 1, j))) IN IF j % 2 = 1 THEN t ELSE CNeg(t)])
InverseDiagonal(A, i) == CDiv(CDet(Minor(A, i, i)), CDet(A))
CMatMul(A, B) == [r \in DOMAIN A |-> [c \in DOMAIN B[1] |-> CSum([k \in DOMAIN B |-> CMul(A[r][k], B[k][c])])]]
CSize(A) == RMaxSeq([r \in DOMAIN A |-> RSum([c \in DOMAIN A[r] |-> RSqrt(CAbs2(A[r][c]))])])

(* (z + mu) S - H - D *)
Bare(z, mu, S, H, D) ==
   TLCEval([r \in DOMAIN H |-> [c \in DOMAIN H |-> CSub(CSub(CScale(S[r][c], ZMu(z, mu)), CReal(H[r][c])), D[r][c])]])
(* with the self-energy of every site that of its representative *)
Dressed(B, sigma, inv) == TLCEval([r \in DOMAIN B |-> [c \in DOMAIN B |-> IF r = c THEN CSub(B[r][c], sigma[inv[r] + 1]) ELSE B[r][c]]])
ClusterGreen(B, sigma, inv, site) == InverseDiagonal(Dressed(B, sigma, inv), site + 1)

(* The semicircle of half width 1: the root of g^2/4 - z g + 1 that decays. *)
IsBethe(g, z, t) == /\ CNear(CAdd(CSub(CScale("1/4", CMul(g, g)), CMul(z, g)), One), Zero, t)
                    /\ RLe(CAbs2(g), RAdd(4, t)) /\ RLe(g[2], t)
=============================================================================
