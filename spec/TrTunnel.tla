----------------------------- MODULE TrTunnel -----------------------------
(***************************************************************************)
(* Recorded tunnelling calculations: the eigenspace is given, the elements  *)
(* are certified against it, and the matrices built from them against the   *)
(* golden rule and second-order perturbation theory.                        *)
(* st = [n, X, T, ids, steps, list]: the eigenspace, its amplitudes, and    *)
(* what the last certified elements were.                                   *)
(***************************************************************************)
EXTENDS Observe, Tunnel

VARIABLES l, bad, st

Nothing == [n |-> 0, X |-> <<>>, T |-> <<>>, egs |-> <<>>, ids |-> <<>>, steps |-> {}, pairs |-> {}, screened |-> FALSE]
QSet(s) == {s[i].q : i \in DOMAIN s}
SectorAt(s, q) == s[CHOOSE i \in DOMAIN s : s[i].q = q]
Key(e) == <<e.f, e.i>>
Distinct(s) == \A i, j \in DOMAIN s : i # j => Key(s[i]) # Key(s[j])

SetSpace(e) ==
   LET X == TLCEval([q \in QSet(e.sectors) |-> LET x == SectorAt(e.sectors, q)
               IN IF Len(q) = 2 THEN [w |-> RVec(x.w), v |-> RMat(x.v), up |-> x.up, dw |-> x.dw]
                                ELSE [w |-> RVec(x.w), v |-> RMat(x.v), states |-> x.states]])
   IN [Nothing EXCEPT !.n = e.n, !.X = X, !.T = Tables(e.n, X), !.egs = e.egs]

(* a number right to a relative 1e-9, except next to nothing *)
Close(out, want, err) == RNear(out, want, RAdd(RAdd("1e-42", err), RMul("1e-9", RAbs(want))))
Within(out, want, err) == RNear(out, want, RAdd("1e-45", RAdd(err, RMul("1e-9", RAbs(want)))))
SquareOf(M, k) == Len(M) = k /\ \A i \in DOMAIN M : Len(M[i]) = k
Conserves(M) == \A c \in DOMAIN M : RLe(RAbs(RSum([r \in DOMAIN M |-> M[r][c]])), RAdd("1e-45", RMul("1e-12", RSum([r \in DOMAIN M |-> RAbs(M[r][c])]))))

(* ---- cutoffs: what is kept, and what may go either way *)
Sure(x, c) == RLt(RAbs(x), RSub(c, "1e-12"))
Maybe(x, c) == RLt(RAbs(x), RAdd(c, "1e-12"))

(* ---- P22: sequential, spin-resolved *)
Active == ActiveSz(st.n, GroundSectors(st.X, st.egs))
SqWanted == Steps(st.n, st.X, Active)
SqFails(e) ==
   LET W == SqWanted
       screen(t, ok(_,_)) == \/ e.cutoff = <<>>
                             \/ /\ ok(StepEnergy(st.X, t), e.cutoff[1])
                                /\ ok(RSub(EnergyOf(st.X, t[1]), st.egs), e.cutoff[1])
                                /\ ok(RSub(EnergyOf(st.X, t[2]), st.egs), e.cutoff[1])
       must == {<<t[1], t[2]>> : t \in {x \in W : screen(x, Sure)}}
       may == {<<t[1], t[2]>> : t \in {x \in W : screen(x, Maybe)}}
       got == {Key(e.out[k]) : k \in DOMAIN e.out}
       step(k) == CHOOSE t \in W : <<t[1], t[2]>> = Key(e.out[k])
   IN IF ~Distinct(e.out) \/ ~(must \subseteq got /\ got \subseteq may) THEN {"pairs"}
      ELSE Failing(<< <<"kind", \A k \in DOMAIN e.out : e.out[k].kind = (IF step(k)[4] = 1 THEN "electron" ELSE "hole")>>,
                      <<"energy", \A k \in DOMAIN e.out : RNear(e.out[k].E, StepEnergy(st.X, step(k)), "1e-12")>>,
                      <<"amplitude", \A k \in DOMAIN e.out : SameUpTo(e.out[k].v, StepVector(st.T, step(k)), "1e-11")>> >>)
SetSteps(e) == LET got == {Key(e.out[k]) : k \in DOMAIN e.out}
                   S == {t \in Steps(st.n, st.X, DOMAIN st.X) : <<t[1], t[2]>> \in got}
               IN [st EXCEPT !.steps = S, !.ids = Ordered({t[1] : t \in S} \cup {t[2] : t \in S})]
StepsOf(f, i) == {t \in st.steps : t[1] = f /\ t[2] = i}
SumSteps(S, f(_)) == LET s == SetSeq(S) IN RSum([k \in DOMAIN s |-> f(s[k])])
RateFails(e, want(_,_), err(_,_)) ==       \* want(f, i), f # i; columns are initial states
   LET k == Len(st.ids)
       g == TLCEval([f \in 1..k |-> TLCEval([i \in 1..k |-> IF f = i THEN R(0) ELSE want(st.ids[f], st.ids[i])])])
       x == TLCEval([f \in 1..k |-> TLCEval([i \in 1..k |-> IF f = i THEN R(0) ELSE err(st.ids[f], st.ids[i])])])
   IN IF ~SquareOf(e.W, k) THEN {"shape"}
      ELSE Failing(<< <<"rates", \A f, i \in 1..k : f # i => Close(e.W[f][i], g[f][i], x[f][i])>>,
                      <<"losses", \A i \in 1..k : Close(e.W[i][i], RNeg(RSum([f \in 1..k |-> g[f][i]])), RSum([f \in 1..k |-> x[f][i]]))>>,
                      <<"probability-conserved", Conserves(e.W)>> >>)
SqRateFails(e) ==
   LET want(f, i) == SumSteps(StepsOf(f, i), LAMBDA t : RAdd(Golden(st.X, st.T, t, e.A[1], e.beta, e.mu[1]), Golden(st.X, st.T, t, e.A[2], e.beta, e.mu[2])))
       err(f, i) == SumSteps(StepsOf(f, i), LAMBDA t : RAdd(GoldenError(st.X, st.T, t, e.A[1], e.beta, e.mu[1]), GoldenError(st.X, st.T, t, e.A[2], e.beta, e.mu[2])))
   IN RateFails(e, want, err)
SqTransFails(e) ==        \* into the lead with couplings a: electrons count plus, holes minus
   LET k == Len(st.ids)
       want(f, i) == SumSteps(StepsOf(f, i), LAMBDA t : RMul(t[4], Golden(st.X, st.T, t, e.a, e.beta, e.mu)))
       err(f, i) == SumSteps(StepsOf(f, i), LAMBDA t : GoldenError(st.X, st.T, t, e.a, e.beta, e.mu))
   IN IF ~SquareOf(e.M, k) THEN {"shape"}
      ELSE Failing(<< <<"current", \A f, i \in 1..k : Close(e.M[f][i], want(st.ids[f], st.ids[i]), err(st.ids[f], st.ids[i]))>> >>)

(* which sectors have to be solved *)
Flip(n, q) == {q} \cup {r \in {<<q[1]-1, q[2]+1>>, <<q[1]+1, q[2]-1>>} : r \in Sectors(n)}
Around(n, q) == {r \in {<<q[1]-1, q[2]>>, <<q[1]+1, q[2]>>, <<q[1], q[2]-1>>, <<q[1], q[2]+1>>} : r \in Sectors(n)}
CoReached(n, gs) == UNION {Flip(n, q) : q \in gs}
CoActive(n, gs) == LET r == CoReached(n, gs) IN r \cup UNION {Around(n, q) : q \in r}
ActiveFails(e) ==
   LET gs == {e.gs[i] : i \in DOMAIN e.gs}
       want == IF e.fn = "sequential" THEN ActiveSz(e.n, gs) ELSE CoActive(e.n, gs)
       at(q) == SectorIndex(e.n, q[1], q[2]) + 1
   IN IF Len(e.neig) # (e.n + 1) * (e.n + 1) THEN {"length"}
      ELSE Failing(<< <<"active-sectors", \A q \in Sectors(e.n) : e.neig[at(q)] = (IF q \in want THEN e.val ELSE 0)>>,
                      <<"listed", \A q \in want : \E i \in DOMAIN e.list : e.list[i] = q>>,
                      <<"listed-in-space", e.fn = "cotunneling" \/ \A i \in DOMAIN e.list : e.list[i] \in Sectors(e.n)>> >>)
DudFails(e) == Failing(<< <<"spin-and-charge", e.out = <<e.du + e.dd, e.du - e.dd>> \/ (e.du + e.dd = -1 /\ e.out = <<-1, e.dd - e.du>>)>>,
                          <<"inverse", e.back = <<e.du, e.dd>> >> >>)

(* ---- P23: sequential, total charge.  An entry holds elements of both spins. *)
SqnWanted(N) == LET near == {<<N>>} \cup {q \in {<<N-1>>, <<N+1>>} : q \in DOMAIN st.X}
                IN {t \in Steps(st.n, st.X, near) : SectorOf(t[1]) = <<N>> \/ SectorOf(t[2]) = <<N>>}
SqnFails(e) ==
   LET N == e.N
       W == SqnWanted(N)
       got == {Key(e.out[k]) : k \in DOMAIN e.out}
       el(x, s) == {g \in DOMAIN x.gf : x.gf[g].spin = s}
       t(k, s) == CHOOSE x \in W : x[1] = e.out[k].f /\ x[2] = e.out[k].i /\ x[3] = s
   IN IF ~Distinct(e.out) \/ got # {<<x[1], x[2]>> : x \in W} THEN {"pairs"}
      ELSE IF \E k \in DOMAIN e.out : Len(e.out[k].gf) # 2 \/ Cardinality(el(e.out[k], 0)) # 1 \/ Cardinality(el(e.out[k], 1)) # 1 THEN {"spins"}
      ELSE Failing(<< <<"kind", \A k \in DOMAIN e.out, g \in {1, 2} : e.out[k].gf[g].kind = (IF e.out[k].f[1] > e.out[k].i[1] THEN "electron" ELSE "hole")>>,
                      <<"energy", \A k \in DOMAIN e.out, g \in {1, 2} : RNear(e.out[k].gf[g].E, StepEnergy(st.X, t(k, 0)), "1e-12")>>,
                      <<"amplitude", \A k \in DOMAIN e.out, g \in {1, 2} : SameUpTo(e.out[k].gf[g].v, StepVector(st.T, t(k, e.out[k].gf[g].spin)), "1e-11")>> >>)
SqnRateFails(e) ==
   LET k == Len(st.ids)
       lead(f, i, a, mu) == SumSteps(StepsOf(f, i), LAMBDA t : Golden(st.X, st.T, t, a, e.beta, mu))
       err1(f, i, a, mu) == SumSteps(StepsOf(f, i), LAMBDA t : GoldenError(st.X, st.T, t, a, e.beta, mu))
       want(f, i) == RAdd(lead(f, i, e.A[1], e.mu[1]), lead(f, i, e.A[2], e.mu[2]))
       err(f, i) == RAdd(err1(f, i, e.A[1], e.mu[1]), err1(f, i, e.A[2], e.mu[2]))
       cur(f, i) == RMul(IF f[1] > i[1] THEN -1 ELSE 1, lead(f, i, e.A[e.inject + 1], e.mu[e.inject + 1]))
   IN RateFails(e, want, err) \cup
      (IF ~SquareOf(e.M, k) THEN {"shape"} ELSE Failing(<< <<"current", \A f, i \in 1..k : Close(e.M[f][i], IF f = i THEN R(0) ELSE cur(st.ids[f], st.ids[i]), err(st.ids[f], st.ids[i]))>> >>))

(* ---- P24, P25: cotunnelling.  Processes <<spin that leaves, spin that enters>>. *)
Processes == {<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>}
EndOf(q, p) == IF Len(q) = 1 THEN q
               ELSE LET a == IF p[2] = 0 THEN <<q[1]+1, q[2]>> ELSE <<q[1], q[2]+1>>
                    IN IF p[1] = 0 THEN <<a[1]-1, a[2]>> ELSE <<a[1], a[2]-1>>
(* electron: +p[2], then -p[1]; hole: -p[1], then +p[2] *)
EPaths(f, i, p) == Paths(st.n, st.X, st.T, f, i, p[1], p[2], 1,
                         LAMBDA w : RSub(w, EnergyOf(st.X, IF Len(i) = 3 THEN i ELSE f)))
HPaths(f, i, p) == Paths(st.n, st.X, st.T, f, i, p[2], p[1], -1, LAMBDA w : RSub(EnergyOf(st.X, i), w))
(* a list of recorded paths against the specified ones: energies, and products of amplitudes with sign s *)
Outer(vF, vI, s) == Flat([a \in DOMAIN vF |-> [b \in DOMAIN vI |-> RMul(s, RMul(vF[a], vI[b]))]])
Alike(rec, P, s) == IF rec = <<>> THEN P = <<>>
                    ELSE /\ Len(rec.E) = Len(P) /\ Len(rec.vF) = Len(P) /\ Len(rec.vI) = Len(P)
                         /\ \A j \in DOMAIN P : /\ RNear(rec.E[j], P[j][1], "1e-12")
                                                /\ RFar(Outer(rec.vF[j], rec.vI[j], 1), Outer(P[j][2], P[j][3], s), "1e-11") = 0
(* is the recorded sigma this process? *)
Realises(g, f, i, p) ==
   /\ RNear(g.dE, RSub(EnergyOf(st.X, f), EnergyOf(st.X, i)), "1e-12")
   /\ \E s \in {1, -1} : Alike(g.e, EPaths(f, i, p), s) /\ Alike(g.h, HPaths(f, i, p), s)
Tagged(g, i, p) ==     \* how a record names its process: intermediate sectors, or spins
   IF Len(i) = 2 THEN g.spins = <<p[1], p[2]>>
   ELSE LET q == SectorOf(i)
        IN /\ g.e = <<>> \/ g.e.nsJ = Beyond(st.n, q, p[2], 1)
           /\ g.h = <<>> \/ g.h.nsJ = Beyond(st.n, q, p[1], -1)
(* all the terms of a process between leads ext and inj *)
Terms(f, i, p, A, ext, inj) ==
   LET E == EPaths(f, i, p)
       H == HPaths(f, i, p)
       ae == A[ext + 1]
       ai == A[inj + 1]
   IN TLCEval([y |-> [j \in DOMAIN E |-> RMul(RDot(E[j][2], ai), RDot(E[j][3], ae))] \o [j \in DOMAIN H |-> RMul(RDot(H[j][2], ae), RDot(H[j][3], ai))],
               s |-> [j \in DOMAIN E |-> RAdd("1e-7", RMul(RAbsDot(E[j][2], ai), RAbsDot(E[j][3], ae)))]
                     \o [j \in DOMAIN H |-> RAdd("1e-7", RMul(RAbsDot(H[j][2], ae), RAbsDot(H[j][3], ai)))],
               e |-> [j \in DOMAIN E |-> E[j][1]] \o [j \in DOMAIN H |-> H[j][1]]])
CoPairs(qs) == {<<f, i>> \in IdsOf(st.X, qs) \X IdsOf(st.X, qs) : \E p \in Processes : EndOf(SectorOf(i), p) = SectorOf(f)}
CoProcesses(f, i) == {p \in Processes : EndOf(SectorOf(i), p) = SectorOf(f) /\ (EPaths(f, i, p) # <<>> \/ HPaths(f, i, p) # <<>>)}
CoFails(e) ==
   LET qs == IF e.N = <<>> THEN CoReached(st.n, GroundSectors(st.X, st.egs)) ELSE {<<e.N[1]>>}
       all == CoPairs(qs)
       energy(id) == RSub(EnergyOf(st.X, id), st.egs)
       screen(p, ok(_,_)) == \/ e.cutoff = <<>>
                             \/ /\ ok(RSub(energy(p[1]), energy(p[2])), e.cutoff[1]) /\ ok(energy(p[1]), e.cutoff[1]) /\ ok(energy(p[2]), e.cutoff[1])
       must == {p \in all : screen(p, Sure)}
       may == {p \in all : screen(p, Maybe)}
       got == {Key(e.out[k]) : k \in DOMAIN e.out}
       one(x) == LET P == CoProcesses(x.f, x.i)
                 IN /\ Len(x.sigma) = Cardinality(P)
                    /\ \A p \in P : Cardinality({g \in DOMAIN x.sigma : Tagged(x.sigma[g], x.i, p)}) = 1
       right(x) == \A p \in CoProcesses(x.f, x.i), g \in DOMAIN x.sigma : Tagged(x.sigma[g], x.i, p) => Realises(x.sigma[g], x.f, x.i, p)
       (* a screened element may leave out intermediate states that no pair of leads can reach *)
       total(v) == RSum([q \in DOMAIN v |-> RAbs(v[q])])
       dark(path) == RLe(RMul(total(path[2]), total(path[3])), "1e-9")
       unseen(p) == \A c \in CoProcesses(p[1], p[2]) :
                      LET E == EPaths(p[1], p[2], c) H == HPaths(p[1], p[2], c)
                      IN (\A j \in DOMAIN E : dark(E[j])) /\ (\A j \in DOMAIN H : dark(H[j]))
   IN IF ~Distinct(e.out) \/ ~(got \subseteq may) \/ ~(\A p \in must \ got : e.N # <<>> /\ e.cutoff # <<>> /\ unseen(p)) THEN {"pairs"}
      ELSE IF e.N # <<>> /\ e.cutoff # <<>> THEN {}
      ELSE IF \E k \in DOMAIN e.out : ~one(e.out[k]) THEN {"processes"}
      ELSE Failing(<< <<"second-order-elements", \A k \in DOMAIN e.out : right(e.out[k])>> >>)
SetPairs(e) == LET got == {Key(e.out[k]) : k \in DOMAIN e.out}
               IN [st EXCEPT !.pairs = got, !.screened = (e.cutoff # <<>>), !.ids = Ordered({p[1] : p \in got} \cup {p[2] : p \in got})]

(* what intermediate states that were left out as unreachable can make of an amplitude squared *)
Lost(t, m, z) == IF ~st.screened THEN R(0)
                 ELSE LET d == AmpScale([j \in DOMAIN t.s |-> "1e-9"], t.e, z) IN RMul(d, RAdd(RMul(2, m), d))

ValueFails(e) ==     \* |amplitude|^2 at energies z
   LET t == Terms(e.f, e.i, e.p, e.A, e.ext, e.inj)
       ok(k) == LET a == Amplitude(t.y, t.e, e.z[k])
                    m == AmpScale(t.s, t.e, e.z[k])
                IN RNear(e.out[k], RMul(a, a), RAdd(RAdd("1e-45", Lost(t, m, e.z[k])), RMul("1e-8", RMul(m, m))))
   IN IF Len(e.out) # Len(e.z) THEN {"shape"} ELSE Failing(<< <<"amplitude-squared", \A k \in DOMAIN e.z : ok(k)>> >>)

(* rate of one pair between two leads *)
Approximate(f, i, e, ext, inj) ==
   LET dE == RSub(EnergyOf(st.X, f), EnergyOf(st.X, i))
       x == RAdd(RSub(dE, e.mu[ext + 1]), e.mu[inj + 1])
       z == RDiv(RAdd(dE, RAdd(e.mu[1], e.mu[2])), 2)
       win == RDiv(XBose(RMul(e.beta, x)), e.beta)
       P == SetSeq(CoProcesses(f, i))
       t == [k \in DOMAIN P |-> Terms(f, i, P[k], e.A, ext, inj)]
   IN [value |-> RMul(win, RSum([k \in DOMAIN P |-> LET a == Amplitude(t[k].y, t[k].e, z) IN RMul(a, a)])),
       error |-> RMul(win, RSum([k \in DOMAIN P |-> LET a == AmpScale(t[k].s, t[k].e, z) IN RAdd(RMul("1e-8", RMul(a, a)), Lost(t[k], a, z))]))]
Exact(f, i, e, ext, inj) ==
   LET dE == RSub(EnergyOf(st.X, f), EnergyOf(st.X, i))
       P == SetSeq(CoProcesses(f, i))
       w == TLCEval([k \in DOMAIN P |-> LET t == Terms(f, i, P[k], e.A, ext, inj) IN Windowed(t.y, t.s, t.e, RSub(e.mu[ext + 1], dE), R(e.mu[inj + 1]), e.beta)])
   IN [value |-> RSum([k \in DOMAIN P |-> w[k].value]), error |-> RSum([k \in DOMAIN P |-> w[k].error])]
(* the numerical integral cuts the window off four kT outside *)
Numerical(f, i, e, ext, inj) == LET x == Exact(f, i, e, ext, inj) IN [value |-> x.value, error |-> RAdd(x.error, RMul("7/100", RAbs(x.value)))]
RateOf(f, i, e, ext, inj) == CASE e.how = "approximate" -> Approximate(f, i, e, ext, inj)
                               [] e.how = "exact" -> Exact(f, i, e, ext, inj)
                               [] e.how = "integrate" -> Numerical(f, i, e, ext, inj)
(* pairs not among the elements are zero *)
CoRateFails(e) ==
   LET k == Len(st.ids)
       has(f, i) == <<st.ids[f], st.ids[i]>> \in st.pairs
       g == TLCEval([f \in 1..k |-> TLCEval([i \in 1..k |-> IF ~has(f, i) THEN <<>> ELSE
               TLCEval([ab \in {<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>} |-> RateOf(st.ids[f], st.ids[i], e, ab[1], ab[2])])])])
       four(f, i, fld) == IF ~has(f, i) THEN R(0) ELSE LET x == g[f][i] IN
            IF fld = "value" THEN RSum(<<x[<<0,0>>].value, x[<<0,1>>].value, x[<<1,0>>].value, x[<<1,1>>].value>>)
            ELSE RSum(<<x[<<0,0>>].error, x[<<0,1>>].error, x[<<1,0>>].error, x[<<1,1>>].error>>)
       off(i, fld) == RSum([f \in 1..k |-> IF f = i THEN R(0) ELSE four(f, i, fld)])
       cur(f, i) == IF ~has(f, i) THEN R(0) ELSE RSub(g[f][i][<<e.ext, e.inj>>].value, g[f][i][<<e.inj, e.ext>>].value)
       curerr(f, i) == IF ~has(f, i) THEN R(0) ELSE RAdd(g[f][i][<<e.ext, e.inj>>].error, g[f][i][<<e.inj, e.ext>>].error)
   IN (IF ~SquareOf(e.W, k) THEN {"shape"}
       ELSE Failing(<< <<"rates", \A f, i \in 1..k : f # i => Within(e.W[f][i], four(f, i, "value"), four(f, i, "error"))>>,
                       <<"losses", \A i \in 1..k : Within(e.W[i][i], RNeg(off(i, "value")), off(i, "error"))>>,
                       <<"probability-conserved", Conserves(e.W)>> >>))
      \cup (IF ~SquareOf(e.M, k) THEN {"shape"}
       ELSE Failing(<< <<"current", \A f, i \in 1..k : Within(e.M[f][i], cur(f, i), curerr(f, i))>> >>))

KeptFails(e) == Failing(<< <<"arguments-kept", e.kept>> >>)

Fails(e) == CASE e.op = "space" -> {}
              [] e.op = "sq" -> SqFails(e)
              [] e.op = "sqrate" -> SqRateFails(e)
              [] e.op = "sqcurrent" -> SqTransFails(e)
              [] e.op = "active" -> ActiveFails(e)
              [] e.op = "dud" -> DudFails(e)
              [] e.op = "sqn" -> SqnFails(e)
              [] e.op = "sqnrate" -> SqnRateFails(e)
              [] e.op = "co" -> CoFails(e)
              [] e.op = "value" -> ValueFails(e)
              [] e.op = "corate" -> CoRateFails(e)
              [] e.op = "kept" -> KeptFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})
After(e) == CASE e.op = "case" -> Nothing
              [] e.op = "space" -> SetSpace(e)
              [] e.op \in {"sq", "sqn"} -> SetSteps(e)
              [] e.op = "co" -> SetPairs(e)
              [] OTHER -> st

Init == l = 1 /\ bad = <<>> /\ st = Nothing
Next == /\ l <= Len(Log)
        /\ LET f == Fails(Log[l])
           IN /\ bad' = Note(bad, l, f)
              /\ st' = IF f # {} /\ Log[l].op \in {"sq", "sqn", "co"} THEN st ELSE After(Log[l])
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
