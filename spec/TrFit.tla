-------------------------------- MODULE TrFit --------------------------------
(***************************************************************************)
(* Recorded bath initialisations (P30), costs and gradients (P31), line    *)
(* minimisations and conjugate-gradient descents as sequences of           *)
(* evaluations (P32), and fits (P33).                                      *)
(***************************************************************************)
EXTENDS Observe, Bath, LinAlg

VARIABLES l, bad

(* ---- P30 *)
InitFails(e) ==
   IF Len(e.x) # 2 * e.levels THEN {"count"}
   ELSE Failing(<< <<"finite", Finite(e.x)>>,
                   <<"energies", RFar(Es(e.x), InitialEnergies(e.levels, e.band), "1e-12") = 0>>,
                   <<"couplings", \A j \in 1..e.levels : RNear(Vs(e.x)[j], InitialCoupling(e.levels), "1e-14")>>,
                   <<"symmetric", e.levels > 1 => \A j \in 1..e.levels : RNear(RAdd(e.x[j], e.x[e.levels+1-j]), 0, "1e-12")>>,
                   <<"distinct-ascending", (e.levels <= 40 /\ RLe(2, e.band)) => \A j \in 1..(e.levels-1) : RLt(e.x[j], e.x[j+1])>>,
                   <<"nothing-else-written", e.margins>>,
                   <<"reproducible", e.again>> >>)

(* ---- P31 *)
CostFails(e) ==
   LET w == Matsubara(Len(e.t), e.beta)
       z(i) == <<R(0), w[i]>>
       c == Cost(e.x, w, e.t)
       big == RAdd(1, RDiv(RSum([i \in DOMAIN e.t |-> RAdd(CAbs2(e.t[i]), CAbs2(Hyb(e.x, z(i))))]), Len(e.t)))
       vmax == RAdd(1, RMaxSeq([j \in 1..NB(e.x) |-> RAbs(e.x[NB(e.x)+j])]))
       tg == RMul("1e-11", RMul(RMul(vmax, vmax), RMul(big, RDiv(1, RMul(w[1], w[1])))))
   IN IF Len(e.delta) # Len(e.t) \/ Len(e.grad) # Len(e.x) THEN {"shape"}
      ELSE Failing(<< <<"hybridisation", \A i \in DOMAIN e.t : CRel(e.delta[i], Hyb(e.x, z(i)), "1e-12")>>,
                      <<"cost", RRel(e.cost, c, RMul("1e-12", big))>>,
                      <<"gradient", \A j \in DOMAIN e.x : RNear(e.grad[j], DCost(e.x, w, e.t, j), RAdd(tg, "1e-13"))>>,
                      <<"inputs-kept", e.same>> >>)
           \cup (IF e.ddelta = <<>> THEN {}
                 ELSE Failing(<< <<"hybridisation-derivative", \A i \in DOMAIN e.t : \A j \in DOMAIN e.x :
                                      CNear(e.ddelta[i][j], DHyb(e.x, z(i), j), RAdd("1e-12", RMul("1e-11", RDiv(RMul(vmax, vmax), RMul(w[1], w[1])))))>> >>))

(* ---- P32.  An evaluation is <<x, f(x)>>, in the order made. *)
Between(a, x, b) == (RLe(a, x) /\ RLe(x, b)) \/ (RLe(b, x) /\ RLe(x, a))
Made(ev, x, f) == \E i \in DOMAIN ev : R(ev[i][1]) = R(x) /\ R(ev[i][2]) = R(f)
BracketFails(e) ==
   IF Len(e.ev) < 3 THEN {"too-few-evaluations"}
   ELSE Failing(<< <<"middle-not-above", RLe(e.fb, e.fa) /\ RLe(e.fb, e.fc)>>,
                   <<"middle-between", Between(e.a, e.b, e.c)>>,
                   <<"not-above-start", RLe(e.fb, e.f0) /\ RLe(e.fb, e.f1)>>,
                   <<"values-belong", Made(e.ev, e.a, e.fa) /\ Made(e.ev, e.b, e.fb) /\ Made(e.ev, e.c, e.fc)>>,
                   <<"holds-a-minimum", e.convex => \E i \in DOMAIN e.mins : Between(e.a, e.mins[i], e.c)>> >>)
LowestFails(e) ==
   LET tol1 == RAdd(RMul(e.tol, RAbs(e.x)), "1e-10")
       slack == RMul(2, tol1)
       lo == RSub(RMinOf(e.a, e.c), slack)
       hi == RAdd(RMaxOf(e.a, e.c), slack)
   IN Failing(<< <<"lowest-evaluated", \A i \in DOMAIN e.ev : RLe(e.f, e.ev[i][2])>>,
                 <<"value-belongs", Made(e.ev, e.x, e.f)>>,
                 <<"not-above-start", RLe(e.f, e.fb)>>,
                 <<"inside", Between(e.a, e.x, e.c)>>,
                 <<"evaluations-inside", \A i \in DOMAIN e.ev : Between(lo, e.ev[i][1], hi)>>,
                 <<"minimum", e.convex => \E i \in DOMAIN e.mins : RNear(e.x, e.mins[i], RMul(4, tol1))>> >>)
(* xi1 = s xi0, p1 = p0 + xi1, fret = f(p1) <= f(p0) *)
LineFails(e) ==
   LET n == Len(e.p0)
       big == RAdd(1, RAdd(Norm(e.p0), Norm(e.p1)))
       d2 == Norm2(e.xi0)
       s == IF RLe(d2, 0) THEN R(0) ELSE RDiv(RDot(e.xi1, e.xi0), d2)
   IN Failing(<< <<"moved-by-direction", RFar(e.p1, RVec(VAdd(e.p0, e.xi1)), RMul("1e-14", big)) = 0>>,
                 <<"direction-scaled", RFar(e.xi1, RVec(VScale(s, e.xi0)), RMul("1e-13", RAdd("1e-300", Norm(e.xi1)))) = 0>>,
                 <<"value-at-point", RRel(e.fret, e.f1, "1e-13")>>,
                 <<"descends", RLe(e.fret, RAdd(e.f0, RMul("1e-14", RAbs(e.f0))))>>,
                 <<"line-minimum", (e.convex /\ RLt(0, d2)) => LET c == RDot(e.g1, e.xi0) IN
                        \/ RLe(RMul(c, c), RMul("1e-4", RMul(d2, RAdd("1e-12", Norm2(e.g0)))))
                        \/ RLe(RAbs(s), "1e-9")>> >>)
(* The descent: evaluations of f ("f", x, f(x)) and of the gradient          *)
(* ("d", x, g) in order.  A line search starts where the gradient is taken  *)
(* and the function then evaluated at the same point.                       *)
Tolerance == "1e-5"
Eps == "2e-4"
SameFirst(ev) == {i \in 1..(Len(ev)-1) : ev[i].k = "d" /\ ev[i+1].k = "f" /\ ev[i].x = ev[i+1].x}
(* near the end rounding makes a search evaluate its starting point again   *)
Starts(ev) == LET s == TLCEval(SameFirst(ev)) IN {i \in s : ~\E j \in s : j < i /\ ev[j].x = ev[i].x}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Little(a, b) == RLe(RMul(2, RAbs(RSub(a, b))), RMul("1.000001e-5", RAdd(RAdd(RAbs(a), RAbs(b)), Eps)))
(* The directions of the line searches: down the first gradient, then each   *)
(* new gradient made conjugate to the direction before (Polak and Ribiere).  *)
RECURSIVE Directions(_)
Directions(G) ==
   IF Len(G) = 1 THEN << RVec(VScale(-1, G[1])) >>
   ELSE LET k == Len(G)
            D == TLCEval(Directions(SubSeq(G, 1, k-1)))
            gam == RDiv(RDot(RVec(VSub(G[k], G[k-1])), G[k]), Norm2(G[k-1]))
        IN Append(D, RVec(VAdd(VScale(-1, G[k]), VScale(gam, D[k-1]))))
Along(dx, h) == LET c == RDiv(RDot(dx, h), Norm2(h)) IN RLe(Norm(RVec(VSub(dx, VScale(c, h)))), RMul("1e-6", Norm(dx)))
Conjugate(X, G) ==
   LET D == TLCEval(Directions(G))
   IN \A k \in DOMAIN G : LET dx == RVec(VSub(X[k+1], X[k])) IN
        \/ RLe(Norm(dx), RMul("1e-7", RAdd("1e-3", Norm(X[k]))))
        \/ Along(dx, D[k])
DescentFails(e) ==
   LET s == TLCEval(Sorted(Starts(e.ev)))
       F == TLCEval([i \in DOMAIN s |-> R(e.ev[s[i]+1].f)])
       last == IF s = <<>> THEN R(e.f0) ELSE F[Len(F)]
       g == IF s = <<>> THEN <<>> ELSE e.ev[s[Len(s)]].f
       X == TLCEval([i \in 1..Len(s)+1 |-> IF i > Len(s) THEN e.p1 ELSE e.ev[s[i]].x])
       G == TLCEval([i \in DOMAIN s |-> e.ev[s[i]].f])
   IN Failing(<< <<"never-increases", \A i \in 1..(Len(F)-1) : RLe(F[i+1], RAdd(F[i], RMul("1e-14", RAbs(F[i]))))>>,
                 <<"not-above-start", RLe(e.fret, RAdd(e.f0, RMul("1e-14", RAbs(e.f0)))) /\ RLe(e.fret, RAdd(last, RMul("1e-14", RAbs(last))))>>,
                 <<"value-at-point", RRel(e.fret, e.f1, "1e-13")>>,
                 <<"stops-without-progress", s # <<>> => (Little(e.fret, last) \/ RLe(Norm2(g), "1e-300"))>>,
                 \* every step but the last made progress
                 <<"steps-counted", s # <<>> => e.iter = 1 + Cardinality({i \in 1..(Len(F)-1) : ~Little(F[i+1], F[i])})>>,
                 <<"conjugate-directions", (s # <<>> /\ \A i \in DOMAIN G : RLt("1e-300", Norm2(G[i]))) => Conjugate(X, G)>>,
                 <<"finds-minimum", e.quad => RLe(RSub(e.fret, e.fmin), RMul("2e-3", RAdd(RAdd(RAbs(e.fmin), RSub(e.f0, e.fmin)), Eps)))>> >>)

(* ---- P33 *)
FitFails(e) ==
   LET w == Matsubara(Len(e.t), e.beta)
       c0 == Cost(e.x0, w, e.t)
       c1 == Cost(e.x1, w, e.t)
   IN IF Len(e.x1) # Len(e.x0) THEN {"shape"}
      ELSE Failing(<< <<"finite", Finite(e.x1)>>,
                      <<"not-worse", RLe(c1, RAdd(c0, RMul("1e-12", RAdd(c0, "1e-6"))))>>,
                      <<"reported-cost", ~e.told \/ RNear(e.fret, c1, RAdd("1e-15", RMul("1e-10", c1)))>>,
                      <<"exact-target-kept", e.exact => RLe(c1, "1e-20")>>,
                      <<"near-target", e.near => RLe(c1, "1e-6")>>,
                      <<"reproducible", e.again = e.x1>>,
                      <<"target-kept", e.same>> >>)
(* The same start through two interfaces of the same fit. *)
InterfaceFails(e) == Failing(<< <<"interfaces-agree", e.a = e.b>> >>)

Fails(e) == CASE e.op = "init" -> InitFails(e)
              [] e.op = "cost" -> CostFails(e)
              [] e.op = "bracket" -> BracketFails(e)
              [] e.op = "lowest" -> LowestFails(e)
              [] e.op = "line" -> LineFails(e)
              [] e.op = "descent" -> DescentFails(e)
              [] e.op = "fit" -> FitFails(e)
              [] e.op = "interface" -> InterfaceFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})

Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
