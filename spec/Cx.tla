--------------------------------- MODULE Cx ---------------------------------
(* Complex numbers <<re, im>> over RealArith. *)
EXTENDS RealArith, Integers, Sequences, TLC

CRe(z) == z[1]
CIm(z) == z[2]
C(x, y) == <<R(x), R(y)>>
CReal(x) == <<R(x), R(0)>>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CScale(t, a) == <<RMul(t, a[1]), RMul(t, a[2])>>
CNeg(a) == <<RNeg(a[1]), RNeg(a[2])>>
CConj(a) == <<R(a[1]), RNeg(a[2])>>
CAbs2(a) == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2]))
CInv(a) == LET m == CAbs2(a) IN <<RDiv(a[1], m), RNeg(RDiv(a[2], m))>>
CDiv(a, b) == CMul(a, CInv(b))
CSum(s) == <<RSum([i \in DOMAIN s |-> s[i][1]]), RSum([i \in DOMAIN s |-> s[i][2]])>>
CNear(a, b, t) == RNear(a[1], b[1], t) /\ RNear(a[2], b[2], t)
(* |a-b| <= t (1 + |b|) *)
CRel(a, b, t) == RLe(CAbs2(CSub(a, b)), LET s == RMul(t, RAdd(1, RSqrt(CAbs2(b)))) IN RMul(s, s))
RRel(a, b, t) == RNear(a, b, RMul(t, RAdd(1, RAbs(b))))

(* \sum_i q[i] / (z - l[i]) for real q, l *)
Poles(q, l, z) ==
   LET y2 == RMul(z[2], z[2])
       x  == TLCEval([i \in DOMAIN q |-> RSub(z[1], l[i])])
       w  == TLCEval([i \in DOMAIN q |-> RDiv(q[i], RAdd(RMul(x[i], x[i]), y2))])
   IN <<RDot(w, x), RNeg(RMul(z[2], RSum(w)))>>

RMaxSeq(s) == IF s = <<>> THEN R(0)
              ELSE LET m[i \in 1..Len(s)] == IF i = 1 THEN R(s[1]) ELSE RMaxOf(m[i-1], s[i]) IN m[Len(s)]
RMinSeq(s) == RNeg(RMaxSeq([i \in DOMAIN s |-> RNeg(s[i])]))
=============================================================================
