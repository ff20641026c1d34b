------------------------------ MODULE Tunnel ------------------------------
(***************************************************************************)
(* Tunnelling through an eigenspace.  X is a function from charge sectors   *)
(* (<<nup, ndw>>, or <<N>> when only the total charge is kept) to           *)
(* [w, v, up, dw] or [w, v, states]: eigenvalues and eigenvectors in the    *)
(* basis of the sector.  Operators of opposite spin anticommute: an up      *)
(* operator passes all electrons down.                                      *)
(***************************************************************************)
EXTENDS Green, Thermal

Beyond(n, q, s, step) ==     \* the sector reached by adding (1) or removing (-1) an electron of spin s; <<>> when there is none
   IF Len(q) = 2 THEN Beside(n, q, s, step)
   ELSE IF q[1] + step \in 0..(2*n) THEN <<q[1] + step>> ELSE <<>>

(* <j| c+_ps |l> (step 1) or <j| c_ps |l> (step -1): table[l][j][p] *)
MoveN(n, states, states2, mode, step) ==
   TLCEval([r \in DOMAIN states2 |->
      LET x == states2[r]
      IN IF Bit(x, mode) = (IF step = 1 THEN 1 ELSE 0) THEN LET y == x - step * P2[mode] IN <<JWSign(y, mode, 2*n), IndexIn(states, y) + 1>> ELSE <<0, 0>>])
Table(n, X, q, s, step) ==
   LET r == Beyond(n, q, s, step)
       I == X[q]
       J == X[r]
       cross == IF Len(q) = 2 /\ s = 0 THEN Parity(q[2]) ELSE 1
       mv(p) == IF Len(q) = 2 THEN Move(n, I.up, I.dw, J.up, J.dw, p, s, step) ELSE MoveN(n, I.states, J.states, p + s * n, step)
       a == TLCEval([p \in 1..n |-> Amps(mv(p-1), I.v, J.v)])
   IN TLCEval([l \in DOMAIN I.w |-> [j \in DOMAIN J.w |-> [p \in 1..n |-> RMul(cross, a[p][l][j])]]])
Tables(n, X) ==
   LET D == {<<q, s, t>> \in (DOMAIN X) \X {0, 1} \X {1, -1} : Beyond(n, q, s, t) # <<>> /\ Beyond(n, q, s, t) \in DOMAIN X}
   IN TLCEval([d \in D |-> Table(n, X, d[1], d[2], d[3])])

(* two vectors, the same up to a sign *)
SameUpTo(a, b, t) == Len(a) = Len(b) /\ (RFar(a, b, t) = 0 \/ RFar([i \in DOMAIN a |-> RNeg(a[i])], b, t) = 0)

Ordered(S) ==      \* states <<.., .., j>> in lexicographic order
   LET less(a, b) == \E k \in DOMAIN a : (\A i \in 1..(k-1) : a[i] = b[i]) /\ a[k] < b[k]
       F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x = y \/ less(x, y) IN <<m>> \o F[T \ {m}]
       rank(x) == Cardinality({y \in S : less(y, x)}) + 1
   IN [k \in 1..Cardinality(S) |-> CHOOSE x \in S : rank(x) = k]
SectorOf(id) == SubSeq(id, 1, Len(id) - 1)
Which(id) == id[Len(id)] + 1

(***************************************************************************)
(* Sequential tunnelling.                                                  *)
(***************************************************************************)
EnergyOf(X, id) == X[SectorOf(id)].w[Which(id)]
IdsOf(X, qs) == UNION {{Append(q, k-1) : k \in DOMAIN X[q].w} : q \in qs}
GroundSectors(X, egs) == {q \in DOMAIN X : RLt(RAbs(RSub(RMinSeq(X[q].w), egs)), "1e-9")}
ActiveSz(n, gs) == gs \cup {Beside(n, d[1], d[2], d[3]) : d \in {c \in gs \X {0, 1} \X {1, -1} : Beside(n, c[1], c[2], c[3]) # <<>>}}
(* <<final, initial, spin, step>> *)
Steps(n, X, qs) == UNION {LET q == d[1]
                              r == Beyond(n, q, d[2], d[3])
                          IN IF r = <<>> \/ r \notin qs THEN {}
                             ELSE {<<Append(r, j-1), Append(q, i-1), d[2], d[3]>> : j \in DOMAIN X[r].w, i \in DOMAIN X[q].w}
                          : d \in qs \X {0, 1} \X {1, -1}}
StepEnergy(X, t) == IF t[4] = 1 THEN RSub(EnergyOf(X, t[1]), EnergyOf(X, t[2])) ELSE RSub(EnergyOf(X, t[2]), EnergyOf(X, t[1]))
StepVector(T, t) == T[<<SectorOf(t[2]), t[3], t[4]>>][Which(t[2])][Which(t[1])]
(* golden rule at one lead with couplings a *)
Golden(X, T, t, a, beta, mu) ==
   LET y == RDot(StepVector(T, t), a)
       x == RMul(beta, RSub(StepEnergy(X, t), mu))
   IN RMul(RMul(y, y), Fermi(IF t[4] = 1 THEN x ELSE RNeg(x)))

RAbsDot(a, b) == RDot([k \in DOMAIN a |-> RAbs(a[k])], [k \in DOMAIN b |-> RAbs(b[k])])
(* what rounding can make of it when the amplitudes of the sites cancel *)
GoldenError(X, T, t, a, beta, mu) ==
   LET y == RAdd(RAbsDot(StepVector(T, t), a), "1e-3")        \* an amplitude is a sum too: 1e-15 off
       x == RMul(beta, RSub(StepEnergy(X, t), mu))
   IN RMul("1e-12", RMul(RMul(y, y), Fermi(IF t[4] = 1 THEN x ELSE RNeg(x))))

(***************************************************************************)
(* Cotunnelling: an electron leaves lead `ext` and one enters lead `inj`,   *)
(* while the central region goes from i to f.  The amplitude is a sum of    *)
(* y / (z - eps) over the intermediate states; Path lists <<eps, vF, vI>>.  *)
(***************************************************************************)
(* through the sector with one electron more (step 1: +sI, then -sF) or less (step -1: -sI, then +sF) *)
Paths(n, X, T, f, i, sF, sI, step, eps(_)) ==
   LET q == SectorOf(i)
       r == Beyond(n, q, sI, step)
   IN IF r = <<>> THEN <<>>
      ELSE TLCEval([j \in DOMAIN X[r].w |-> <<eps(X[r].w[j]), T[<<r, sF, -step>>][j][Which(f)], T[<<q, sI, step>>][Which(i)][j]>>])

(* |sum y/(z-eps)|^2 *)
Amplitude(ys, es, z) == RSum([k \in DOMAIN ys |-> RDiv(ys[k], RSub(z, es[k]))])
AmpScale(ss, es, z) == RSum([k \in DOMAIN ss |-> RAbs(RDiv(ss[k], RSub(z, es[k])))])     \* ss: what the y are sums of

(* the integral of f(E-m1)(1-f(E-m2)) (sum a/(E-e))^2, each digamma once    *)
Windowed(a, s, e, m1, m2, beta) ==
   LET x == RMul(beta, RSub(m2, m1))
       um == RDiv(RAdd(U(beta, m1, 0), U(beta, m2, 0)), 2)
       du == U(beta, m2, m1)
       xb == XBose(x)
       g == TLCEval([k \in DOMAIN a |-> IF RLe(RAbs(du), "1e-12") THEN Psi1(RSub(U(beta, e[k], 0), um))[2]
                                        ELSE RDiv(RSub(RePsi(U(beta, e[k], m2)), RePsi(U(beta, e[k], m1))), du)])
       sq == TLCEval([k \in DOMAIN a |-> Square2(e[k], m1, m2, beta)])
       cross(j, k) == IF RLe(RAbs(U(beta, e[j], e[k])), "1e-12") THEN sq[j]
                      ELSE RMul(RDiv(xb, RMul(2, RPi)), RDiv(RSub(g[j], g[k]), RSub(e[j], e[k])))
   IN [value |-> RSum([k \in DOMAIN a |-> RAdd(RMul(RMul(a[k], a[k]), sq[k]), RMul(2, RSum([j \in 1..(k-1) |-> RMul(RMul(a[j], a[k]), cross(j, k))])))]),
       error |-> RAdd(RMul(RMul("6e-6", Len(a)), RSum([k \in DOMAIN a |-> RAbs(RMul(RAdd(RMul(a[k], a[k]), RMul("1e-6", RMul(s[k], s[k]))), sq[k]))])),
                      RMul(RMul("1e-11", beta), RMul(xb, RSum([k \in DOMAIN a |-> RMul(s[k], s[k])]))))]
=============================================================================
