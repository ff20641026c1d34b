------------------------------- MODULE TrDed -------------------------------
(***************************************************************************)
(* Recorded behaviours of distributional exact diagonalisation: drawing    *)
(* and fitting (P39), and the averages over what was accepted (P40).       *)
(***************************************************************************)
EXTENDS Observe, Ded

VARIABLES l, bad, st
Nothing == [pool |-> <<>>]

(* ---- P39 *)
SamplerFails(e) ==
   LET n == Len(e.poles)
       m == Len(e.grid)
       step == RDiv(RSub(e.hi, e.lo), m - 1)
       (* the uniform numbers in ascending order, as the poles are *)
       us == SortSeq(e.us, RLe)
       inside(x) == RLe(e.lo, x) /\ RLe(x, e.hi)
   IN IF Len(e.us) # n \/ Len(e.density) # m THEN {"one-number-per-pole"}
      ELSE Failing(<< <<"ascending", Ascending(e.poles)>>,
                      <<"within-the-limits", \A k \in 1..n : inside(e.poles[k])>>,
                      <<"grid-of-the-limits", RNear(e.grid[1], e.lo, 0) /\ RNear(e.grid[m], e.hi, 0)
                             /\ \A i \in 2..m : RRel(RSub(e.grid[i], e.grid[i-1]), step, "1e-9") /\ RNear(step, RDiv(1, e.per), RMul("2", RDiv(step, m - 1)))>>,
                      <<"inverse-of-the-cumulated-density", \A k \in 1..n : DrawnAt(e.grid, e.density, us[k], e.poles[k], "1e-9")>>,
                      <<"density-kept", e.kept>> >>)
FitFails(e) ==
   LET p == e.p
       n == Len(p)
       s == Spread(p)
       close(a, b) == RLe(CAbs2(CSub(a, b)), LET t == RMul("1e-7", RSqrt(CAbs2(b))) IN RMul(t, t))
       big == RMaxOf(RAbs(p[1]), RAbs(p[n]))
   IN IF Len(e.ek) # n - 1 \/ Len(e.vk2) # n - 1 \/ Len(e.free) # Len(e.z) \/ Len(e.siam) # Len(e.z) THEN {"shape"}
      ELSE Failing(<< <<"free-green-function", \A i \in DOMAIN e.z : close(e.free[i], FreeG(p, e.z[i]))>>,
                      <<"derivative", \A i \in DOMAIN e.at : RRel(e.slope[i], RNeg(RDiv(RSum([j \in 1..n |-> LET d == RSub(e.at[i], p[j]) IN RDiv(1, RMul(d, d))]), n)), "1e-9")>>,
                      <<"level-is-the-mean", RNear(e.e0, Mean(p), RMul("1e-13", RAdd(big, "1e-12")))>>,
                      <<"interlaced", Interlaced(p, e.ek, RMul("1e-12", RAdd(big, s)))>>,
                      <<"couplings", \A k \in DOMAIN e.vk2 : RLe(0, e.vk2[k])>>,
                      <<"same-green-function", \A i \in DOMAIN e.z : close(SiamG(e.e0, e.ek, e.vk2, e.z[i]), FreeG(p, e.z[i])) /\ close(e.siam[i], FreeG(p, e.z[i]))>>,
                      <<"hybridisation", \A i \in DOMAIN e.z : \A k \in DOMAIN e.vk2 : close(e.delta[i][k], Poles(<<e.vk2[k]>>, <<e.ek[k]>>, e.z[i]))>> >>)
(* The matrix built: x[i][k] solves (z[k] - H) x = unit vector of impurity i. *)
MatrixFails(e) ==
   LET n == Len(e.H)
       imps == DOMAIN e.p
       close(a, b) == RLe(CAbs2(CSub(a, b)), LET t == RMul("1e-7", RSqrt(CAbs2(b))) IN RMul(t, t))
   IN IF \E r \in 1..n : Len(e.H[r]) # n THEN {"shape"}
      ELSE Failing(<< <<"symmetric", \A r, c \in 1..n : RNear(e.H[r][c], e.H[c][r], 0)>>,
                      <<"harness-certificate", \A i \in imps, k \in DOMAIN e.z : Solves(e.H, e.z[k], e.x[i][k], i, "1e-8")>>,
                      <<"green-function-of-the-sample", \A i \in imps, k \in DOMAIN e.z : close(e.x[i][k][i], FreeG(e.p[i], e.z[k]))>>,
                      <<"impurities-apart", \A i, j \in imps : i # j => \A k \in DOMAIN e.z : CNear(e.x[i][k][j], C(0, 0), "1e-9")>>,
                      <<"interaction", e.V = <<>> \/ \A r, c \in 1..n : RNear(e.V[r][c], IF r = 1 /\ c = 1 THEN R(e.U) ELSE R(0), 0)>> >>)

(* ---- P40.  st.pool: what the samples so far are worth, in the order given. *)
QSet(s) == {s[i].q : i \in DOMAIN s}
AtQ(s, q) == s[CHOOSE i \in DOMAIN s : s[i].q = q]
FullOf(S) == TLCEval([q \in QSet(S) |-> LET x == AtQ(S, q) IN [up |-> x.up, dw |-> x.dw, w |-> RVec(x.w), v |-> RMat(x.v)]])
ModelOf(e) == DedModel(e.fit, e.U, e.sigma0)
SampleFails(e) ==
   LET m == ModelOf(e)
       S == e.full
       ok(x) == LET A == SzHam(m, x.up, x.dw)
                IN IsBasis(x.up, m.n, x.q[1]) /\ IsBasis(x.dw, m.n, x.q[2]) /\ Len(x.w) = Len(A) /\ Eigenpairs(A, x.w, x.v, RMul("1e-10", Scale(A)))
       close(a, b) == RLe(CAbs2(CSub(a, b)), LET t == RMul("1e-7", RSqrt(CAbs2(b))) IN RMul(t, t))
   IN Failing(<< <<"fit-of-the-sample", \A i \in DOMAIN e.p, k \in DOMAIN e.z : close(SiamG(e.fit[i].e0, e.fit[i].ek, e.fit[i].vk2, e.z[k]), FreeG(e.p[i], e.z[k]))>>,
                 <<"harness-spectrum", Len(S) = Cardinality(QSet(S)) /\ QSet(S) = Sectors(m.n) /\ \A i \in DOMAIN S : ok(S[i])>> >>)
Worth(e) ==
   LET nimp == Len(e.p)
       nb == Len(e.fit[1].ek)
       n == nimp * (nb + 1)
       F == FullOf(e.full)
       egs == RMinSeq(Flat([i \in DOMAIN e.full |-> e.full[i].w]))
       g == CHOOSE q \in DOMAIN F : RNear(F[q].w[1], egs, RMul("1e-9", RAdd(RAbs(egs), 1)))
       occ(r) == RAdd(Occ(F[g].up, F[g].dw, F[g].v[1], r-1, 0), Occ(F[g].up, F[g].dw, F[g].v[1], r-1, 1))
       o == TLCEval([r \in 1..n |-> occ(r)])
       all(i) == RSum([k \in 1..(nb+1) |-> o[SiteOf(nimp, nb, i, k-1)]])
       neg(i) == Negative(e.p[i])
       X == Weighty(F, e.beta, egs)
       Z == Zsum(X, e.beta, egs)
       P(i) == Part(n, F, X, e.beta, egs, i-1, i-1, 0, 1) \o Part(n, F, X, e.beta, egs, i-1, i-1, 0, -1)
       sigma(i) == LET ps == P(i) IN [k \in DOMAIN e.z |-> CSub(CInv(FreeG(e.p[i], e.z[k])), CInv(EvalPoles(ps, Z, e.z[k])))]
       lv == TLCEval([k \in 0..nb |-> FreeLevels(e.fit[1].ek, k)])
       bathw == Flat([a \in 1..((nb+1)*(nb+1)) |-> LET i == lv[(a-1) \div (nb+1)]
                                                     j == lv[(a-1) % (nb+1)]
                                                 IN Flat([x \in DOMAIN i |-> [y \in DOMAIN j |-> RAdd(i[x], j[y])]])])
       w == Flat([i \in DOMAIN e.full |-> e.full[i].w])
       acc == {i \in 1..nimp : RNear(all(i), 2 * neg(i), "1e-6")}
   IN TLCEval([accepted |-> acc,
               occ0 |-> [i \in 1..nimp |-> RDiv(2 * neg(i), nb + 1)], occ1 |-> [i \in 1..nimp |-> o[i]],
               sigma |-> [i \in 1..nimp |-> IF i \in acc THEN TLCEval(sigma(i)) ELSE <<>>],
               entropy |-> IF nimp > 1 THEN R(0) ELSE RSub(Entropy(w, e.beta), Entropy(bathw, e.beta))])
AverageFails(e) ==
   LET pool == st.pool
       D == e.draws
       nimp == Len(e.occ0)
       hit(i) == SelectSeq(D, LAMBDA d : i \in pool[d].accepted)
       rounds == Len(SelectSeq(D, LAMBDA d : pool[d].accepted # {}))
       mean(i, f(_)) == RDiv(RSum([k \in DOMAIN hit(i) |-> f(pool[hit(i)[k]])]), Len(hit(i)))
       cmean(i, k) == CScale(RDiv(1, Len(hit(i))), CSum([d \in DOMAIN hit(i) |-> pool[hit(i)[d]].sigma[i][k]]))
       seen == {i \in 1..nimp : hit(i) # <<>>}
   IN IF \E i \in DOMAIN D : pool[D[i]].accepted # {e.accepts[i][k] : k \in DOMAIN e.accepts[i]} THEN {"harness-acceptance"}
      ELSE IF Len(e.occ1) # nimp \/ Len(e.sigma) # nimp \/ \E i \in DOMAIN e.sigma : Len(e.sigma[i]) # e.nz THEN {"shape"}
      ELSE Failing(<< <<"draws-what-it-needs", e.used = e.numbers * Len(D) /\ rounds = e.asked>>,
                      <<"free-occupation", \A i \in seen : RNear(e.occ0[i], mean(i, LAMBDA x : x.occ0[i]), "1e-7")>>,
                      <<"occupation", \A i \in seen : RNear(e.occ1[i], mean(i, LAMBDA x : x.occ1[i]), "1e-7")>>,
                      <<"self-energy", \A i \in seen : \A k \in 1..e.nz : CNear(e.sigma[i][k], cmean(i, k), RMul("1e-6", e.scale))>>,
                      <<"entropy", e.entropy = <<>> \/ RNear(e.entropy[1], mean(1, LAMBDA x : x.entropy), "1e-6")>>,
                      <<"arguments-kept", e.kept>> >>)
(* A smoothed function keeps its slow components and loses the fast ones.   *)
SmoothFails(e) ==     \* e.parts: components [f, v]: frequency, values where the result was taken
   LET slow == SelectSeq(e.parts, LAMBDA c : RLe(c.f, e.cutoff))
       want(i) == CSum([j \in DOMAIN slow |-> slow[j].v[i]])
   IN IF \E c \in DOMAIN e.parts : Len(e.parts[c].v) # Len(e.out) THEN {"shape"}
      ELSE Failing(<< <<"slow-components-kept-fast-ones-lost", \A i \in DOMAIN e.out : CNear(e.out[i], want(i), "1e-8")>>,
                      <<"nothing-outside", \A i \in DOMAIN e.outside : CNear(e.outside[i], C(0, 0), 0)>>,
                      <<"arguments-kept", e.kept>> >>)

Fails(e) == CASE e.op = "sampler" -> SamplerFails(e)
              [] e.op = "fit" -> FitFails(e)
              [] e.op = "matrix" -> MatrixFails(e)
              [] e.op = "sample" -> SampleFails(e)
              [] e.op = "average" -> AverageFails(e)
              [] e.op = "smooth" -> SmoothFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})
After(e) == CASE e.op = "case" -> Nothing
              [] e.op = "sample" -> [st EXCEPT !.pool = Append(@, Worth(e))]
              [] OTHER -> st

Init == l = 1 /\ bad = <<>> /\ st = Nothing
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ st' = After(Log[l])
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
