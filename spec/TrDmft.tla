------------------------------- MODULE TrDmft -------------------------------
(***************************************************************************)
(* Recorded histories of an impurity solver (P35), of self-consistency     *)
(* loops (P34), and of chemical-potential searches (P38).                  *)
(*                                                                         *)
(* The impurity: levels mu and bath x (per spin), and what it was at the   *)
(* last solution.  Its one-body matrix is the star                         *)
(*     -mu  v1 v2 ..                                                       *)
(*      v1  e1                                                             *)
(*      v2     e2                                                          *)
(***************************************************************************)
EXTENDS Observe, Green, Bath, Thermal

VARIABLES l, bad, st
Nothing == [imp |-> <<>>, solved |-> <<>>, loop |-> <<>>]
QSet(s) == {s[i].q : i \in DOMAIN s}
OnceEach(s) == \A i, j \in DOMAIN s : i # j => s[i].q # s[j].q
AtQ(s, q) == s[CHOOSE i \in DOMAIN s : s[i].q = q]
Bits(a, b) == \A i \in DOMAIN a : RNear(a[i], b[i], 0)

Star(mu, x) ==
   LET k == NB(x)
   IN [r \in 1..(k+1) |-> [c \in 1..(k+1) |-> IF r = 1 /\ c = 1 THEN RNeg(mu)
                                              ELSE IF r = 1 THEN R(Vs(x)[c-1]) ELSE IF c = 1 THEN R(Vs(x)[r-1])
                                              ELSE IF r = c THEN R(Es(x)[r-1]) ELSE R(0)]]
SameMatrix(A, B, t) == Len(A) = Len(B) /\ \A r \in DOMAIN A : Len(A[r]) = Len(B[r]) /\ \A c \in DOMAIN A[r] : RNear(A[r][c], B[r][c], t)
Spins(imp) == DOMAIN imp.x
OnSite(imp) == [r \in 1..imp.n |-> [c \in 1..imp.n |-> IF r = 1 /\ c = 1 THEN R(imp.U) ELSE R(0)]]
ModelOf(imp) == LET h(s) == Star(imp.mu[s], imp.x[s])
                IN [n |-> imp.n, H |-> <<h(1), h(Len(imp.x))>>, U |-> OnSite(imp), Jx |-> <<>>, Jp |-> <<>>, hf |-> FALSE, mu |-> R(0), z |-> <<>>]
(* What the object holds is what the history says. *)
HoldsFails(e, imp) ==
   Failing(<< <<"one-body-matrix", imp.fitted => \A s \in Spins(imp) : SameMatrix(e.H[s], Star(imp.mu[s], imp.x[s]), "1e-14")>>,
              <<"bath", \A s \in Spins(imp) : Len(e.x[s]) = Len(imp.x[s]) /\ Bits(e.x[s], imp.x[s])>>,
              <<"interaction", SameMatrix(e.V, OnSite(imp), 0)>>,
              <<"chemical-potential", RNear(e.mu, imp.mu[1], "1e-14")>> >>)
ImpTo(e) ==
   LET imp == st.imp
   IN CASE e.act = "new" -> [n |-> e.n, U |-> e.U, beta |-> e.beta, mu |-> [s \in 1..e.spins |-> R(0)], x |-> e.x, first |-> e.x, fitted |-> FALSE]
        [] e.act = "bath" -> [imp EXCEPT !.x = e.x, !.fitted = FALSE]          \* put there from outside
        [] e.act = "reset" -> [imp EXCEPT !.x = imp.first, !.fitted = FALSE]
        [] e.act = "fit" -> [imp EXCEPT !.x = e.x, !.fitted = TRUE]
        [] e.act = "fit-update" -> [imp EXCEPT !.x = e.x, !.fitted = TRUE, !.mu = [s \in DOMAIN imp.mu |-> R(e.to)]]
        [] e.act = "fit-up" -> [imp EXCEPT !.x[1] = e.x[1]]
        [] e.act = "update" -> [imp EXCEPT !.mu = [s \in DOMAIN imp.mu |-> R(e.to)]]
        [] e.act = "update-up" -> [imp EXCEPT !.mu[1] = R(e.to)]
        [] e.act = "update-dw" -> [imp EXCEPT !.mu[2] = R(e.to)]
        [] e.act = "symmetrize" -> [imp EXCEPT !.mu[2] = imp.mu[1], !.x[2] = imp.x[1]]
(* A fit is of the hybridisation given: never further from it than where it *)
(* started.                                                                 *)
FitFails(e, imp) ==
   LET w == Matsubara(e.nmats, imp.beta)
       which == IF e.act = "fit-up" THEN {1} ELSE Spins(imp)
   IN Failing(<< <<"fit-of-what-was-given", \A s \in which : LET t == e.target[s] IN RLe(Cost(e.x[s], w, t), RMul(Cost(imp.x[s], w, t), "1.000001"))>> >>)
ImpFails(e) ==
   LET imp == st.imp
       to == ImpTo(e)
   IN IF e.act = "bath" THEN {}
      ELSE IF e.act = "new" THEN Failing(<< <<"initial-bath", \A s \in DOMAIN e.x : Len(e.x[s]) = 2 * (e.n - 1)>> >>)
      ELSE HoldsFails(e, to) \cup (IF e.act \in {"fit", "fit-update", "fit-up"} THEN FitFails(e, imp) ELSE {})

(* ---- solving: the complete spectrum of the Anderson model as it is now.  *)
FullOk(m, S) == /\ OnceEach(S) /\ QSet(S) = Sectors(m.n)
                /\ \A i \in DOMAIN S : LET x == S[i]
                                           A == SzHam(m, x.up, x.dw)
                                       IN IsBasis(x.up, m.n, x.q[1]) /\ IsBasis(x.dw, m.n, x.q[2])
                                          /\ Len(x.w) = Len(A) /\ Eigenpairs(A, x.w, x.v, RMul("1e-10", Scale(A)))
FullOf(S) == TLCEval([q \in QSet(S) |-> LET x == AtQ(S, q) IN [up |-> x.up, dw |-> x.dw, w |-> RVec(x.w), v |-> RMat(x.v)]])
IndexOf(n, q) == SectorIndex(n, q[1], q[2]) + 1
Dim(n, q) == Binom(n, q[1]) * Binom(n, q[2])
Adapted(n, X, q, c) ==
   LET here == q \in QSet(X)
       k == IF here THEN Len(AtQ(X, q).w) ELSE 0
       down == IF c - 1 > 1 THEN c - 1 ELSE 1
   IN IF here /\ k = c THEN (IF c + 1 < Dim(n, q) THEN c + 1 ELSE Dim(n, q))
      ELSE IF ~here \/ k < c THEN down ELSE c
(* The states kept: of those asked for, the ones relevant at the default     *)
(* temperature, that is degenerate with the lowest.                         *)
SolveFails(e) ==
   LET m == ModelOf(st.imp)
       n == m.n
       F == FullOf(e.full)
       asked(q) == IF e.before = <<>> THEN Dim(n, q) ELSE e.before[IndexOf(n, q)]
       cut == RDiv(RNeg(RLn("1e-9")), "1e6")
       lowest == RMinSeq(Flat([i \in DOMAIN e.full |-> e.full[i].w]))
       (* the count of eigenvalues of F[q] not above w *)
       within(q, w) == Cardinality({k \in DOMAIN F[q].w : RLe(F[q].w[k], w)})
       sure(q) == LET k == within(q, RAdd(lowest, RMul(cut, "0.99"))) IN IF k < asked(q) THEN k ELSE asked(q)
       may(q) == LET k == within(q, RAdd(lowest, RMul(cut, "1.01"))) IN IF k < asked(q) THEN k ELSE asked(q)
       has(q) == IF q \in QSet(e.espace) THEN Len(AtQ(e.espace, q).w) ELSE 0
       ok(x) == LET A == SzHam(m, F[x.q].up, F[x.q].dw) IN Eigenpairs(A, x.w, x.v, RMul("1e-9", Scale(A)))
   IN IF ~FullOk(m, e.full) THEN {"spectrum-of-the-anderson-model"}
      ELSE Failing(<< <<"eigenstates-of-the-anderson-model", OnceEach(e.espace) /\ QSet(e.espace) \subseteq Sectors(n) /\ \A i \in DOMAIN e.espace : ok(e.espace[i])>>,
                      <<"relevant-states", \A q \in Sectors(n) : sure(q) <= has(q) /\ has(q) <= may(q)>>,
                      <<"ground-state", RNear(e.egs, lowest, "1e-9")>>,
                      <<"adapted-counts", IF e.adapt THEN \A q \in Sectors(n) : e.after[IndexOf(n, q)] = Adapted(n, e.espace, q, e.before[IndexOf(n, q)])
                                          ELSE e.after = e.before>> >>)
Solution(e) ==
   LET n == st.imp.n
       F == FullOf(e.full)
       X == e.espace
       P(s) == Part(n, F, X, st.imp.beta, e.egs, 0, 0, s, 1) \o Part(n, F, X, st.imp.beta, e.egs, 0, 0, s, -1)
       occ(s) == ThermalOcc(F, X, st.imp.beta, e.egs, 0, s)
   IN TLCEval([Z |-> Zsum(X, st.imp.beta, e.egs), P |-> [s \in 1..Len(st.imp.x) |-> P(s-1)], moment |-> RSub(occ(0), occ(1))])
MomentFails(e) == Failing(<< <<"local-moment", RNear(e.out, st.solved.moment, "1e-9")>> >>)
Shown(e) ==
   LET imp == st.imp
       ss == Spins(imp)
       z(i) == e.z[i]
       free(s, i) == CSub(CSub(z(i), <<RNeg(imp.mu[s]), R(0)>>), Hyb(imp.x[s], z(i)))
       g == TLCEval([s \in ss |-> [i \in DOMAIN e.z |-> EvalPoles(st.solved.P[s], st.solved.Z, z(i))]])
       close(a, b) == CRel(a, b, "1e-6")
       (* differences of inverses lose what G's relative accuracy times 1/G is *)
       near(a, b, i) == CNear(a, b, RMul("1e-6", RAdd(1, RAdd(CAbs2(z(i)), RSqrt(CAbs2(b))))))
       sound(v) == Len(v) = Len(imp.x) /\ \A s \in ss : Len(v[s]) = Len(e.z)
   IN IF ~(sound(e.free) /\ sound(e.freeinv) /\ (st.solved = <<>> \/ (sound(e.g) /\ sound(e.sigma)))) THEN {"shape"}
      ELSE Failing(<< <<"free", \A s \in ss, i \in DOMAIN e.z : CRel(e.free[s][i], CInv(free(s, i)), "1e-9") /\ CRel(e.freeinv[s][i], free(s, i), "1e-9")>>,
                      <<"green-function", st.solved = <<>> \/ \A s \in ss, i \in DOMAIN e.z : close(e.g[s][i], g[s][i])>>,
                      <<"self-energy", st.solved = <<>> \/ \A s \in ss, i \in DOMAIN e.z : near(e.sigma[s][i], CSub(free(s, i), CInv(g[s][i])), i)>> >>)
(* Occupation at 300 K from the poles of both spins. *)
ImpOccFails(e) ==
   LET b == BetaOf(300)
       occ(s) == RDiv(RSum([j \in DOMAIN st.solved.P[s] |-> RMul(st.solved.P[s][j][1], Fermi(RMul(b, RSub(st.solved.P[s][j][2], e.mu))))]), st.solved.Z)
   IN IF Len(e.out) # 1 THEN {"shape"}
      ELSE Failing(<< <<"occupation", RNear(e.out[1], RAdd(occ(1), occ(Len(st.imp.x))), "1e-5")>> >>)

(* ---- P34: the loop.  st.loop = [it, max, tol, steps] *)
CDist2(a, b) == RSum([i \in DOMAIN a |-> CAbs2(CSub(a[i], b[i]))])
LoopNewFails(e) == Failing(<< <<"matsubara-frequencies", Len(e.z) = e.nmats /\ \A i \in DOMAIN e.z : CNear(e.z[i], <<R(0), RDiv(RMul(2*i-1, RPi), e.beta)>>, RMul("1e-12", i))>>,
                              <<"weights", Len(e.w) = e.nmats /\ \A i \in DOMAIN e.w : RRel(e.w[i], RExp(RNeg(RMul(e.alpha, RLn(e.z[i][2])))), "1e-9")>> >>)
(* every site its own level *)
Levels(x, mu, ed) == Len(x) = Len(ed) /\ \A s \in DOMAIN ed : RNear(x[s], RSub(mu, ed[s]), "1e-13")
InitialFails(e) ==
   LET mu == IF e.given = <<>> THEN RDiv(e.U, 2) ELSE R(e.given[1])
   IN Failing(<< <<"lattice-chemical-potential", RNear(e.mu, mu, "1e-14")>>,
                 <<"impurity-chemical-potential", Levels(e.impmu, mu, e.ed)>>,
                 <<"bath-reset", e.reset>>, <<"self-energy-set", e.sigma>>,
                 <<"first-guess", Len(e.out) = Len(e.want) /\ \A i \in DOMAIN e.out : CNear(e.out[i], e.want[i], "1e-13")>> >>)
IterateFails(e) ==
   LET L == st.loop
       d2 == CDist2(e.new, e.used)
       t2 == RMul(L.tol, L.tol)
       edge == RNear(d2, t2, RMul("1e-9", t2))
       near == RLt(d2, t2)
       (* the hybridisation the step was made with: the one given, made causal *)
       clamped(i) == /\ RNear(e.used[i][1], e.given[i][1], 0) /\ RLe(e.used[i][2], 0)
                     /\ (RLe(e.given[i][2], 0) => RNear(e.used[i][2], e.given[i][2], 0))
                     /\ (RLt(0, e.given[i][2]) => RLe("-1e-10", e.used[i][2]))
       end(converged) == IF converged THEN e.end = "Converged" /\ e.it = L.it
                         ELSE /\ e.it = L.it + 1
                              /\ IF e.it > L.max THEN e.end = "FailedToConverge" ELSE e.end = ""
   IN IF Len(e.used) # Len(e.given) \/ e.steps # 1 THEN {"one-step-each"}
      ELSE Failing(<< <<"causal", \A i \in DOMAIN e.given : clamped(i)>>,
                      <<"ends-rightly", end(near) \/ (edge /\ (end(TRUE) \/ end(FALSE)))>>,
                      <<"new-hybridisation", e.end = "" => Len(e.out) = Len(e.new) /\ \A i \in DOMAIN e.new : CNear(e.out[i], e.new[i], 0)>>,
                      <<"hybridisation-of-the-step", Len(e.last) = Len(e.used) /\ \A i \in DOMAIN e.used : CNear(e.last[i], e.used[i], 0)>>,
                      <<"solved-with-the-level-of-the-lattice", Levels(e.impmu, e.mu, e.ed)>>,
                      <<"left-as-solved", Levels(e.impnow, e.mu, e.ed)>>,
                      <<"self-energy-of-the-solution", e.sigma>> >>)
MixFails(e) ==     \* the hybridisations tried, in order, and what each gave
   LET n == Len(e.tried)
       next(k, i) == CAdd(e.tried[k][i], CScale(RMul(e.alpha, e.w[i]), CSub(e.gave[k][i], e.tried[k][i])))
       upto == IF e.how = "linear" THEN n - 1 ELSE IF n > 1 THEN 1 ELSE 0
       (* a positive imaginary part is removed before it is used *)
       used(a, b) == RNear(a[1], b[1], "1e-10") /\ (RNear(a[2], b[2], "1e-10") \/ RLe("-1e-10", b[2]))
   IN Failing(<< <<"mixes-what-the-last-step-gave", \A k \in 1..upto : \A i \in DOMAIN e.tried[k] : used(e.tried[k+1][i], next(k, i))>>,
                 <<"goes-on-to-the-end", e.end \in {"Converged", "FailedToConverge"} \/ (e.how = "linear" /\ e.end = "" /\ n > e.iter)>> >>)
StepMuFails(e) ==     \* one self-consistency step that adjusts, or is magnetic
   Failing(<< <<"lattice-level", RNear(e.mu, e.want, "1e-9")>>,
              <<"impurity-level", Len(e.impmu) = Len(e.wantimp) /\ \A s \in DOMAIN e.impmu : RNear(e.impmu[s], e.wantimp[s], "1e-9")>>,
              <<"left-as-solved", Len(e.impnow) = Len(e.wantimp) /\ \A s \in DOMAIN e.impnow : RNear(e.impnow[s], e.wantimp[s], "1e-9")>> >>)

(* ---- P38: occupations sum of 2 f(beta (e - mu)) + offset; at the value     *)
(* returned the goal is crossed.                                            *)
OccAt(e, mu) == RSum([j \in DOMAIN e.levels |-> RMul(e.weights[j], Fermi(RMul(e.beta, RSub(e.levels[j], mu))))])
AdjustFails(e) ==
   LET goal == RSum(e.goal)
       lo == RSub(OccAt(e, e.bracket[1]), goal)
       hi == RSub(OccAt(e, e.bracket[2]), goal)
       d == RMul("1e-10", RAdd(1, RAbs(e.mu)))
       (* what rounding makes of an occupation *)
       t == RMul("1e-13", RAdd(1, RSum(e.weights)))
       crosses == RLt(lo, RNeg(t)) /\ RLt(t, hi)
       never == RLt(t, lo) \/ RLt(hi, RNeg(t))
   IN IF e.raised # "" THEN Failing(<< <<"finds-the-crossing", ~crosses>> >>)
      ELSE Failing(<< <<"no-crossing-no-answer", ~never>>,
                      <<"in-the-bracket", RLe(e.bracket[1], e.mu) /\ RLe(e.mu, e.bracket[2])>>,
                      <<"reaches-the-goal", RLe(OccAt(e, RSub(e.mu, d)), RAdd(goal, t)) /\ RLe(RSub(goal, t), OccAt(e, RAdd(e.mu, d)))>> >>)

Fails(e) == CASE e.op = "imp" -> ImpFails(e)
              [] e.op = "solve" -> SolveFails(e)
              [] e.op = "values" -> Shown(e)
              [] e.op = "impocc" -> ImpOccFails(e)
              [] e.op = "moment" -> MomentFails(e)
              [] e.op = "first" -> Failing(<< <<"attributes-of-the-first", e.same>> >>)
              [] e.op = "loop" -> LoopNewFails(e)
              [] e.op = "initialize" -> InitialFails(e)
              [] e.op = "iterate" -> IterateFails(e)
              [] e.op = "mix" -> MixFails(e)
              [] e.op = "stepmu" -> StepMuFails(e)
              [] e.op = "same" -> Failing(<< <<"alike", Len(e.a) = Len(e.b) /\ Bits(e.a, e.b) /\ SameMatrix(e.c, e.d, 0)>> >>)
              [] e.op = "adjust" -> AdjustFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})
After(e) == CASE e.op = "case" -> Nothing
              [] e.op = "imp" -> [st EXCEPT !.imp = TLCEval(ImpTo(e))]
              [] e.op = "solve" -> [st EXCEPT !.solved = Solution(e)]
              [] e.op = "loop" -> [st EXCEPT !.loop = [it |-> 0, max |-> e.max, tol |-> e.tol]]
              [] e.op = "iterate" -> [st EXCEPT !.loop.it = e.it]
              [] OTHER -> st

Init == l = 1 /\ bad = <<>> /\ st = Nothing
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ st' = After(Log[l])
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
