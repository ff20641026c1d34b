----------------------------- MODULE TrLattice -----------------------------
(* Recorded local Green functions: of lattices (P36) and of clusters with   *)
(* equivalent sites, on one or several processes (P37).                     *)
EXTENDS Observe, Lattice, LinAlg, Thermal

VARIABLES l, bad

CClose(a, b) == CRel(a, b, "1e-9")
All(e, ok(_)) == \A i \in DOMAIN e.z : ok(i)
(* ---- P36.  given: hybrid[i] and sigma[i] (values at z[i]), or the values  *)
(* of the transform at z + mu - sigma and at z + mu.                        *)
LatticeFails(e) ==
   LET n == Len(e.z)
       zm == TLCEval([i \in 1..n |-> ZMu(e.z[i], e.mu)])
       g == TLCEval([i \in 1..n |-> IF e.kind = "hybrid" THEN CInv(CSub(CSub(zm[i], e.hybrid[i]), e.sigma[i]))
                                    ELSE Poles(e.dos[1], e.dos[2], CSub(zm[i], e.sigma[i]))])
       g0 == TLCEval([i \in 1..n |-> IF e.kind = "hybrid" THEN CInv(CSub(zm[i], e.hybrid[i])) ELSE Poles(e.dos[1], e.dos[2], zm[i])])
       weiss == TLCEval([i \in 1..n |-> CAdd(CInv(g[i]), e.sigma[i])])
       shaped == \A x \in {e.g, e.ginv, e.free, e.freeinv, e.weiss, e.delta} : Len(x) = n
   IN IF ~shaped THEN {"shape"}
      ELSE Failing(<< <<"dyson", All(e, LAMBDA i : CClose(e.g[i], g[i]))>>,
                      <<"inverse", All(e, LAMBDA i : CClose(e.ginv[i], CInv(g[i])))>>,
                      <<"free", All(e, LAMBDA i : CClose(e.free[i], g0[i]))>>,
                      <<"free-inverse", All(e, LAMBDA i : CClose(e.freeinv[i], CInv(g0[i])))>>,
                      <<"weiss", All(e, LAMBDA i : CClose(e.weiss[i], weiss[i]))>>,
                      <<"hybridisation", All(e, LAMBDA i : CClose(e.delta[i], CSub(zm[i], weiss[i])))>>,
                      <<"its-own-hybridisation", e.kind = "hybrid" => All(e, LAMBDA i : CClose(e.delta[i], e.hybrid[i]))>>,
                      <<"arguments-kept", e.kept>> >>)
BetheFails(e) == Failing(<< <<"semicircle", All(e, LAMBDA i : IsBethe(e.out[i], IF RLe(e.z[i][2], 0) THEN <<R(e.z[i][1]), R("1e-20")>> ELSE e.z[i],
                                                                         RMul("1e-9", RAdd(1, CAbs2(e.z[i])))))>> >>)
(* ---- P37.  n sites, neq: the representatives, inv: of every site.  The    *)
(* process has the representatives from first on, as many as its values.    *)
ClusterFails(e) ==
   LET mine == SubSeq(e.neq, e.first + 1, e.first + Len(e.g))
       bare(i) == Bare(e.z[i], e.mu, e.S, e.H, e.D[i])
       ok(i) ==
          LET B == bare(i)
          IN \A s \in DOMAIN e.sigma[i] :              \* spins
               LET sg == e.sigma[i][s]
                   A == Dressed(B, sg, e.inv)
                   d == CDet(A)
               IN \A r \in DOMAIN mine :
                     LET g == CDiv(CDet(Minor(A, mine[r] + 1, mine[r] + 1)), d)
                         own == sg[e.first + r]
                         w == CAdd(CInv(g), own)
                     IN /\ CClose(e.g[r][s][i], g)
                        /\ CClose(e.weiss[r][s][i], w)
                        /\ CClose(e.delta[r][s][i], CSub(<<RSub(RAdd(e.z[i][1], e.mu), e.H[mine[r]+1][mine[r]+1]), R(e.z[i][2])>>, w))
       free(i) == LET B == bare(i)
                      P == CMatMul(B, e.free[i])
                  IN \A r \in DOMAIN P, c \in DOMAIN P : CNear(P[r][c], IF r = c THEN One ELSE Zero, RMul("1e-10", RAdd(1, RMul(CSize(B), CSize(e.free[i])))))
   IN IF Len(e.g) # e.count \/ \E x \in {e.weiss, e.delta} : Len(x) # Len(e.g) THEN {"sites-of-the-process"}
      ELSE IF \E r \in DOMAIN e.g : Len(e.g[r]) # Len(e.sigma[1]) \/ \E s \in DOMAIN e.g[r] : Len(e.g[r][s]) # Len(e.z) THEN {"shape"}
      ELSE Failing(<< <<"site-values", All(e, ok)>>,
                      <<"free-matrix", e.free = <<>> \/ All(e, free)>>,
                      <<"level", Len(e.ed) = Len(mine) /\ \A r \in DOMAIN mine : RNear(e.ed[r], e.H[mine[r]+1][mine[r]+1], "1e-13")>> >>)
(* Occupations: the spectrum of H + shift of the representative, per spin,   *)
(* is given and certified.                                                  *)
OccupationFails(e) ==
   LET n == Len(e.H)
       A(s) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN RAdd(e.H[r][c], e.shift[s][e.inv[r]+1]) ELSE R(e.H[r][c])]]
       w(s) == e.w[s]
       occ(s, p) == RSum([k \in DOMAIN w(s) |-> RMul(RMul(e.v[s][k][p], e.v[s][k][p]), Fermi(RMul(e.beta, RSub(w(s)[k], e.mu))))])
       m(s) == RAdd("1/10", RMaxSeq([k \in DOMAIN w(s) |-> RAbs(RSub(w(s)[k], e.mu))]))
       wn == RDiv(RMul(2 * e.nmats - 1, RPi), e.beta)
       err(s) == RAdd("1e-9", RDiv(RMul(RMul(m(s), m(s)), m(s)), RMul(RMul(wn, wn), wn)))
       rep(p) == e.neq[e.inv[p] + 1] + 1
       want(p) == IF Len(e.w) = 1 THEN RMul(2, occ(1, rep(p))) ELSE RAdd(occ(1, rep(p)), occ(2, rep(p)))
   IN IF \E s \in DOMAIN e.w : Len(e.w[s]) # n \/ ~Residuals(A(s), e.w[s], e.v[s], "1e-9") \/ ~Orthonormal(e.v[s], "1e-9") THEN {"harness-spectrum"}
      ELSE IF Len(e.out) # n THEN {"occupations-per-site"}
      ELSE Failing(<< <<"occupation", \A p \in 1..n : RNear(e.out[p], want(p), RMul(4, RMaxOf(err(1), err(Len(e.w)))))>>,
                      <<"chemical-potential-restored", e.restored>> >>)

Fails(e) == CASE e.op = "lattice" -> LatticeFails(e)
              [] e.op = "bethe" -> BetheFails(e)
              [] e.op = "cluster" -> ClusterFails(e)
              [] e.op = "occupations" -> OccupationFails(e)
              [] e.op = "processes" -> Failing(<< <<"no-process-fails", \A i \in DOMAIN e.errors : e.errors[i] = "">> >>)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})

Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
