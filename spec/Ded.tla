-------------------------------- MODULE Ded --------------------------------
(***************************************************************************)
(* Distributional exact diagonalisation.  A sample is a set of n poles p,  *)
(* drawn through the inverse of a cumulated density; it stands for the     *)
(* non-interacting Green function  (1/n) sum 1/(z - p), and for the        *)
(* Anderson model with the same one.                                       *)
(***************************************************************************)
EXTENDS Green

(* The cumulated density at a grid point, not normalised. *)
UpTo(d, i) == RSum(SubSeq(d, 1, i))
(* x, drawn with the uniform number u from the density d on the grid g. *)
DrawnAt(g, d, u, x, t) ==
   \E i \in DOMAIN g : /\ RNear(g[i], x, 0) /\ RLt(0, d[i])
                       /\ LET all == UpTo(d, Len(d))
                              s == RMul(u, all)
                              e == RMul(t, all)
                          IN RLe(UpTo(d, i-1), RAdd(s, e)) /\ RLe(RSub(s, e), UpTo(d, i))

FreeG(p, z) == LET g == Poles([i \in DOMAIN p |-> R(1)], p, z) IN CScale(RDiv(1, Len(p)), g)
(* The Anderson model with level e0, bath levels ek and squared couplings. *)
SiamG(e0, ek, vk2, z) == CInv(CSub(CSub(z, CReal(e0)), Poles(vk2, ek, z)))
Interlaced(p, ek, t) == Len(ek) = Len(p) - 1 /\ \A k \in DOMAIN ek : RLe(RSub(p[k], t), ek[k]) /\ RLe(ek[k], RAdd(p[k+1], t))
Mean(p) == RDiv(RSum(p), Len(p))
Spread(p) == RAdd("1e-30", RSub(RMaxSeq(p), RMinSeq(p)))

(* x solves (z - H) x = unit vector i.  x is a sequence of complex numbers. *)
Solves(H, z, x, i, t) ==
   \A r \in DOMAIN H :
      LET hx == CSum([c \in DOMAIN H |-> CScale(H[r][c], x[c])])
          y == CSub(CMul(z, x[r]), hx)
      IN CNear(y, IF r = i THEN C(1, 0) ELSE C(0, 0), t)

(* One free electron of each spin per negative pole, spread over n levels   *)
(* of which the impurity has the weight 1/n each.                          *)
Negative(p) == Cardinality({i \in DOMAIN p : RLt(p[i], 0)})

(***************************************************************************)
(* The interacting model of a round: impurity i at site i, its bath after   *)
(* all the impurities; the levels lowered by sigma0, and interactions       *)
(* between the impurities.  f[i] = [e0, ek, vk2].                           *)
(***************************************************************************)
SiteOf(nimp, nb, i, k) == IF k = 0 THEN i ELSE nimp + (i-1) * nb + k
DedModel(f, U, sigma0) ==
   LET nimp == Len(f)
       nb == Len(f[1].ek)
       n == nimp * (nb + 1)
       own(r) == IF r <= nimp THEN <<r, 0>> ELSE <<((r - nimp - 1) \div nb) + 1, ((r - nimp - 1) % nb) + 1>>
       h(r, c) == LET a == own(r)
                      b == own(c)
                  IN IF a[1] # b[1] THEN R(0)
                     ELSE IF r = c THEN (IF a[2] = 0 THEN RSub(f[a[1]].e0, sigma0[a[1]]) ELSE R(f[a[1]].ek[a[2]]))
                     ELSE IF a[2] = 0 THEN RNeg(RSqrt(f[a[1]].vk2[b[2]])) ELSE IF b[2] = 0 THEN RNeg(RSqrt(f[a[1]].vk2[a[2]])) ELSE R(0)
       H == TLCEval([r \in 1..n |-> [c \in 1..n |-> h(r, c)]])
       V == TLCEval([r \in 1..n |-> [c \in 1..n |-> IF r <= nimp /\ c <= nimp THEN R(U[r][c]) ELSE R(0)]])
   IN [n |-> n, H |-> <<H, H>>, U |-> V, Jx |-> <<>>, Jp |-> <<>>, hf |-> FALSE, mu |-> R(0), z |-> <<>>]
(* The states that carry weight. *)
Weighty(F, beta, egs) ==
   LET keep(q) == SelectSeq([k \in DOMAIN F[q].w |-> k], LAMBDA k : RLt("1e-16", Boltz(beta, egs, F[q].w[k])))
       RECURSIVE list(_)
       list(T) == IF T = {} THEN <<>> ELSE LET q == CHOOSE x \in T : TRUE
                                               ks == keep(q)
                                           IN (IF ks = <<>> THEN <<>> ELSE <<[q |-> q, w |-> [j \in DOMAIN ks |-> F[q].w[ks[j]]], v |-> [j \in DOMAIN ks |-> F[q].v[ks[j]]]]>>)
                                              \o list(T \ {q})
   IN TLCEval(list(DOMAIN F))
=============================================================================
