------------------------------ MODULE Thermal ------------------------------
(***************************************************************************)
(* Fermi and Bose factors, the continued fraction of the Fermi function    *)
(* and its poles, and the polygamma functions on the line 1/2 + iy, which  *)
(* the regularised tunnelling integrals are made of.                       *)
(***************************************************************************)
EXTENDS Cx

BetaOf(T) == RDiv("1.602176634e-19", RMul("1.380649e-23", T))    \* T in Kelvin, energies in eV

Fermi(x) == LET e == RExp(RNeg(RAbs(x)))
            IN IF RLe(0, x) THEN RDiv(e, RAdd(1, e)) ELSE RDiv(1, RAdd(1, e))

(* tanh y by the first m levels of  y/(1 + y^2/(3 + y^2/(5 + ...)))         *)
RECURSIVE TanhTail(_,_,_)
TanhTail(y2, k, m) == IF k > m THEN R(0) ELSE RDiv(y2, RAdd(2 * k - 1, TanhTail(y2, k + 1, m)))
TanhCF(y, m) == RDiv(y, RAdd(1, TanhTail(RMul(y, y), 2, m)))
(* The Fermi function with n poles in the upper half plane. *)
FermiCF(x, n) == RSub("1/2", RDiv(TanhCF(RDiv(x, 2), 2 * n), 2))

(* Bernoulli numbers B(2), B(4), ... *)
Bern == <<"1/6", "-1/30", "1/42", "-1/30", "5/66", "-691/2730", "7/6", "-3617/510", "43867/798", "-174611/330",
          "854513/138", "-236364091/2730", "8553103/6", "-23749461029/870", "8615841276005/14322">>
NShift == 24

(* 1/2 + iy + n *)
At(y, n) == <<RAdd(n, "1/2"), R(y)>>
CPowInv(z, k) == LET i == CInv(z) IN LET P[j \in 0..k] == IF j = 0 THEN <<R(1), R(0)>> ELSE CMul(P[j-1], i) IN P[k]

RECURSIVE SumC(_,_,_)
SumC(f(_), a, b) == IF a > b THEN <<R(0), R(0)>> ELSE CAdd(f(a), SumC(f, a + 1, b))

(* Re psi(1/2+iy): recurrence up to NShift, then Stirling's series.         *)
RePsi(y) ==
   LET y2 == RMul(y, y)
       low == RSum([k \in 1..NShift |-> LET a == RSub(k, "1/2") IN RDiv(a, RAdd(RMul(a, a), y2))])
       z == At(y, NShift)
       i2 == CPowInv(z, 2)
       P[k \in 1..Len(Bern)] == IF k = 1 THEN TLCEval(i2) ELSE TLCEval(CMul(P[k-1], i2))
   IN TLCEval(RSub(RSub(RSub(RDiv(RLn(CAbs2(z)), 2), RDiv(CInv(z)[1], 2)),
                RSum([k \in DOMAIN Bern |-> RMul(RDiv(Bern[k], 2 * k), P[k][1])])), low))

(* psi'(1/2+iy) = sum 1/(k+1/2+iy)^2 *)
Psi1(y) ==
   LET z == At(y, NShift)
       i1 == CInv(z)
       i2 == CMul(i1, i1)
       P[k \in 1..Len(Bern)] == IF k = 1 THEN TLCEval(CMul(i2, i1)) ELSE TLCEval(CMul(P[k-1], i2))
       low == CSum([k \in 1..NShift |-> LET w == CInv(At(y, k - 1)) IN CMul(w, w)])
   IN TLCEval(CAdd(low, CAdd(CAdd(i1, CScale("1/2", i2)), CSum([k \in DOMAIN Bern |-> CScale(Bern[k], P[k])]))))

(* psi''(1/2+iy) = -2 sum 1/(k+1/2+iy)^3 *)
Psi2(y) ==
   LET z == At(y, NShift)
       i1 == CInv(z)
       i2 == CMul(i1, i1)
       P[k \in 1..Len(Bern)] == IF k = 1 THEN TLCEval(CMul(i2, i2)) ELSE TLCEval(CMul(P[k-1], i2))
       low == CSum([k \in 1..NShift |-> LET w == CInv(At(y, k - 1)) IN CScale(-2, CMul(w, CMul(w, w)))])
   IN TLCEval(CSub(low, CAdd(CAdd(i2, CMul(i2, i1)), CSum([k \in DOMAIN Bern |-> CScale(RMul(2 * k + 1, Bern[k]), P[k])]))))

(* x/(e^x-1) and n_B(x) = 1/(e^x-1) *)
XBose(x) == IF RLe(RAbs(x), "1e-12") THEN RSub(1, RDiv(x, 2))
            ELSE IF RLt(300, x) THEN R(0) ELSE IF RLt(x, -300) THEN RNeg(x)
            ELSE RDiv(x, RSub(RExp(x), 1))

(***************************************************************************)
(* Regularised integrals over E of f(E-m1)(1-f(E-m2)) times propagators.   *)
(* With u = beta E/2pi they are differences of RePsi and Im psi' between   *)
(* the two chemical potentials, times n_B(beta(m2-m1)).                    *)
(* Wide(f, f', x): n_B(x)/beta' * difference, continuous at x = 0:         *)
(* (x/(e^x-1)) * (difference quotient).                                    *)
(***************************************************************************)
U(beta, a, b) == RDiv(RMul(beta, RSub(a, b)), RMul(2, RPi))     \* beta (a-b) / 2 pi

(* d/du Im psi'(1/2+iu) = Re psi'';  d/du Re psi(1/2+iu) = -Im psi'        *)
(* Square: integral of f(1-f)/(E-eps)^2 *)
Square2(eps, m1, m2, beta) ==
   LET x == RMul(beta, RSub(m2, m1))
       b == RDiv(beta, RMul(2, RPi))
       u1 == U(beta, m1, eps)
       u2 == U(beta, m2, eps)
       quot == IF RLe(RAbs(RSub(u2, u1)), "1e-12") THEN Psi2(RDiv(RAdd(u1, u2), 2))[1]
               ELSE RDiv(RSub(Psi1(u2)[2], Psi1(u1)[2]), RSub(u2, u1))
   IN RMul(RMul(RDiv(b, RMul(2, RPi)), XBose(x)), quot)

(* Cross: integral of f(1-f)/((E-ea)(E-eb)) *)
Cross2(ea, eb, m1, m2, beta) ==
   LET x == RMul(beta, RSub(m2, m1))
       b == RDiv(beta, RMul(2, RPi))
       um == RDiv(RAdd(U(beta, m1, 0), U(beta, m2, 0)), 2)
       du == U(beta, m2, m1)
       (* quotient in m of RePsi(b(e-m)) *)
       g(e) == IF RLe(RAbs(du), "1e-12") THEN Psi1(RSub(U(beta, e, 0), um))[2]
               ELSE RDiv(RSub(RePsi(U(beta, e, m2)), RePsi(U(beta, e, m1))), du)
       de == U(beta, ea, eb)
   IN IF RLe(RAbs(de), "1e-12") THEN Square2(RDiv(RAdd(ea, eb), 2), m1, m2, beta)
      ELSE RMul(RDiv(XBose(x), RMul(2, RPi)), RDiv(RSub(g(ea), g(eb)), RSub(ea, eb)))

(* The integral of f(1-f) (sum_k a[k]/(E-e[k]))^2 *)
SquaredSum(a, e, m1, m2, beta) ==
   RSum([i \in DOMAIN a |-> RAdd(RMul(RMul(a[i], a[i]), Square2(e[i], m1, m2, beta)),
            RMul(2, RSum([j \in 1..(i-1) |-> RMul(RMul(a[i], a[j]), Cross2(e[i], e[j], m1, m2, beta))])))])
=============================================================================
