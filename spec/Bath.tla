-------------------------------- MODULE Bath --------------------------------
(***************************************************************************)
(* A bath of k levels is the sequence <<e(1),...,e(k),v(1),...,v(k)>>.     *)
(* Its hybridisation at z is sum v^2/(z-e); its cost against a target on   *)
(* the frequencies i w is the mean squared distance.                       *)
(***************************************************************************)
EXTENDS Cx

NB(x) == Len(x) \div 2
Es(x) == SubSeq(x, 1, NB(x))
Vs(x) == SubSeq(x, NB(x) + 1, Len(x))
Matsubara(nm, beta) == [i \in 1..nm |-> RDiv(RMul(2*i - 1, RPi), beta)]
Hyb(x, z) == Poles([j \in 1..NB(x) |-> RMul(x[NB(x)+j], x[NB(x)+j])], Es(x), z)
HybOn(x, w) == TLCEval([i \in DOMAIN w |-> Hyb(x, <<R(0), R(w[i])>>)])
Cost(x, w, t) == LET d == HybOn(x, w) IN RDiv(RSum([i \in DOMAIN w |-> CAbs2(CSub(t[i], d[i]))]), Len(w))
(* The derivative of the cost, as a difference quotient: the step is so     *)
(* small that the quotient is exact to 40 digits.                          *)
Step == "1e-20"
DCost(x, w, t, j) ==
   RDiv(RSub(Cost([x EXCEPT ![j] = RAdd(@, Step)], w, t), Cost([x EXCEPT ![j] = RSub(@, Step)], w, t)), RMul(2, Step))
DHyb(x, z, j) == LET a == Hyb([x EXCEPT ![j] = RAdd(@, Step)], z)
                     b == Hyb([x EXCEPT ![j] = RSub(@, Step)], z)
                 IN CScale(RDiv(1, RMul(2, Step)), CSub(a, b))

(* The initial bath: energies from -B to B.                                *)
(*   even, k >= 4:  the inner two at -0.1 and 0.1, the others spaced by    *)
(*                  B/(k/2-1) from the edges inwards;                      *)
(*   odd, k >= 3:   0 in the middle, the others spaced by B/(k/2).         *)
InitialEnergies(k, B) ==
   LET h == k \div 2
       inner == k % 2 = 0 /\ k >= 4
       de == RDiv(B, IF k % 2 = 1 THEN (IF h = 0 THEN 1 ELSE h) ELSE IF h - 1 > 1 THEN h - 1 ELSE 1)
       left(j) == IF inner /\ j = h THEN R("-0.1") ELSE RSub(RMul(j - 1, de), B)
   IN [j \in 1..k |-> IF k = 1 THEN R(B)
                      ELSE IF k % 2 = 1 /\ j = h + 1 THEN R(0)
                      ELSE IF j <= h THEN left(j) ELSE RNeg(left(k + 1 - j))]
InitialCoupling(k) == RMaxOf("0.1", RDiv(1, RSqrt(k)))
=============================================================================
