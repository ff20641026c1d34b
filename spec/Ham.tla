-------------------------------- MODULE Ham --------------------------------
(***************************************************************************)
(* The many-body Hamiltonians.  A model is a record                        *)
(*   n, H  (<<up, dw>>, two n x n matrices), U (n x n matrix),             *)
(*   Jx, Jp (n x n matrices or <<>>), hf, mu, z (<<>>: the default)        *)
(*                                                                         *)
(*   sum_is (e_is + mu) n_is + sum_i U_ii n_iu n_id (or (n-1/2)(n-1/2))    *)
(*   + 1/2 sum_{i#j} (n_i - z_i) U_ij (n_j - z_j)                          *)
(*   + sum_{i#j,s} t_ij c+_is c_js                                         *)
(*   + 1/2 sum_{i#j,ss'} Jx_ij c+_is c+_js' c_is' c_js                     *)
(*   + 1/2 sum_{i#j,s}   Jp_ij c+_is c+_i-s c_j-s c_js                     *)
(*                                                                         *)
(* Sector (nup, ndw): operators of opposite spin commute and states are    *)
(* ordered iup + dup*idw.  Sector N: one string of 2n modes, up first.     *)
(***************************************************************************)
EXTENDS Fock, Cx

Small == "1e-7"          \* couplings not larger than this are dropped
Coupling(A, i, j) == IF i = j \/ A = <<>> \/ RLe(RAbs(A[i+1][j+1]), Small) THEN R(0) ELSE R(A[i+1][j+1])
Coupled(A, n) == {p \in (0..(n-1)) \X (0..(n-1)) : p[1] # p[2] /\ A # <<>> /\ ~RLe(RAbs(A[p[1]+1][p[2]+1]), Small)}

Zof(m) == IF m.z = <<>> THEN [i \in 1..m.n |-> IF m.hf THEN R(1) ELSE R(0)] ELSE m.z
Half == R("0.5")

DiagEnergy(m, u, d) ==
   LET z  == Zof(m)
       nn == [i \in 1..m.n |-> RSub(Bit(u, i-1) + Bit(d, i-1), z[i])]
       e(s, x) == RSum([i \in 1..m.n |-> IF Bit(x, i-1) = 1 THEN RAdd(m.H[s][i][i], m.mu) ELSE R(0)])
       on(i) == IF m.hf THEN RMul(RMul(RSub(Bit(u, i-1), Half), RSub(Bit(d, i-1), Half)), m.U[i][i])
                ELSE IF Bit(u, i-1) = 1 /\ Bit(d, i-1) = 1 THEN R(m.U[i][i]) ELSE R(0)
       off(i) == RMul(RMul(Half, nn[i]), RSum([j \in 1..m.n |-> IF j = i THEN R(0) ELSE RMul(m.U[i][j], nn[j])]))
   IN RAdd(RAdd(e(1, u), e(2, d)), RSum([i \in 1..m.n |-> RAdd(on(i), off(i))]))

(* <a| c+_i c_j |b> on n modes, i # j. *)
HopElem(a, b, i, j) == IF Bit(b, j) = 1 /\ Bit(b, i) = 0 /\ a = HopState(b, i, j) THEN HopSign(b, i, j) ELSE 0

(* sum_{i#j} A_ij c+_i c_j in a basis of one spin. *)
HopMatrix(A, n, basis) ==
   LET cp == Coupled(A, n)
       el(a, b) == LET p == {q \in cp : HopElem(a, b, q[1], q[2]) # 0}
                   IN IF p = {} THEN R(0)
                      ELSE LET q == CHOOSE x \in p : TRUE
                           IN RMul(HopElem(a, b, q[1], q[2]), A[q[1]+1][q[2]+1])
   IN TLCEval([r \in 1..Len(basis) |-> [c \in 1..Len(basis) |-> el(basis[r], basis[c])]])

(* Jx and Jp between (a,b)=(up,dw) row and (u,d) column, a # u and b # d. *)
ExchangeElem(m, a, b, u, d) ==
   RSum([k \in 1..(m.n * m.n) |->
      LET i == (k-1) \div m.n
          j == (k-1) % m.n
          up == IF i = j THEN 0 ELSE HopElem(a, u, i, j)
      IN IF up = 0 THEN R(0)
         ELSE RAdd(RMul(up * HopElem(b, d, j, i), Coupling(m.Jx, i, j)),
                   RMul(up * HopElem(b, d, i, j), Coupling(m.Jp, i, j)))])
ExchangeDiag(m, u, d) ==
   IF m.Jx = <<>> THEN R(0)
   ELSE RSum([k \in 1..(m.n * m.n) |->
      LET i == (k-1) \div m.n
          j == (k-1) % m.n
      IN RMul(RMul(Half, -(Bit(u,i) * Bit(u,j) + Bit(d,i) * Bit(d,j))), Coupling(m.Jx, i, j))])

HasJ(m) == m.Jx # <<>> \/ m.Jp # <<>>

(* The matrix of a (nup, ndw) sector with the given bases. *)
SzHam(m, ups, dws) ==
   LET KU == HopMatrix(m.H[1], m.n, ups)
       KD == HopMatrix(m.H[2], m.n, dws)
       dup == Len(ups)
       d == dup * Len(dws)
       el(r, c) ==
          LET a == ((r-1) % dup) + 1
              b == ((r-1) \div dup) + 1
              u == ((c-1) % dup) + 1
              v == ((c-1) \div dup) + 1
          IN IF r = c THEN RAdd(DiagEnergy(m, ups[a], dws[b]), IF HasJ(m) THEN ExchangeDiag(m, ups[a], dws[b]) ELSE R(0))
             ELSE IF b = v THEN KU[a][u]
             ELSE IF a = u THEN KD[b][v]
             ELSE IF HasJ(m) THEN ExchangeElem(m, ups[a], dws[b], ups[u], dws[v]) ELSE R(0)
   IN TLCEval([r \in 1..d |-> [c \in 1..d |-> el(r, c)]])

(* The matrix of a sector of the total charge; hopping is left out there.   *)
UpOf(s, n) == s % P2[n]
DwOf(s, n) == s \div P2[n]
NHamJ(m, a, b) ==
   LET n == m.n
       md(i, s) == i + s * n
       px(i, j) == RMul(RMul(Half, Coupling(m.Jx, i, j)),
             RSum([q \in 1..4 |-> LET s == (q-1) \div 2
                                      g == (q-1) % 2
                                  IN Elem(<<<<"d", md(i,s)>>, <<"d", md(j,g)>>, <<"c", md(i,g)>>, <<"c", md(j,s)>>>>, a, b, 2*n)]))
       pp(i, j) == RMul(RMul(Half, Coupling(m.Jp, i, j)),
             RSum([q \in 1..2 |-> LET s == q-1
                                  IN Elem(<<<<"d", md(i,s)>>, <<"d", md(i,1-s)>>, <<"c", md(j,1-s)>>, <<"c", md(j,s)>>>>, a, b, 2*n)]))
   IN RSum([k \in 1..(n * n) |->
         LET i == (k-1) \div n
             j == (k-1) % n
         IN IF i = j THEN R(0) ELSE RAdd(IF m.Jx = <<>> THEN R(0) ELSE px(i, j), IF m.Jp = <<>> THEN R(0) ELSE pp(i, j))])
NHam(m, states) ==
   TLCEval([r \in 1..Len(states) |-> [c \in 1..Len(states) |->
      RAdd(IF r = c THEN DiagEnergy(m, UpOf(states[r], m.n), DwOf(states[r], m.n)) ELSE R(0),
           IF HasJ(m) THEN NHamJ(m, states[r], states[c]) ELSE R(0))]])

(* Single elements, for sectors too large to be written out. *)
Differ(a, b, n) == {i \in 0..(n-1) : Bit(a, i) # Bit(b, i)}
HopCoupling(A, n, a, b) ==        \* a # b
   LET x == Differ(a, b, n)
   IN IF Cardinality(x) # 2 THEN R(0)
      ELSE LET i == CHOOSE k \in x : Bit(a, k) = 1
               j == CHOOSE k \in x : Bit(a, k) = 0
           IN IF Bit(b, j) = 0 \/ Bit(b, i) = 1 THEN R(0) ELSE RMul(HopElem(a, b, i, j), Coupling(A, i, j))
SzElem(m, a, b, u, d) ==
   IF a = u /\ b = d THEN RAdd(DiagEnergy(m, u, d), IF HasJ(m) THEN ExchangeDiag(m, u, d) ELSE R(0))
   ELSE IF b = d THEN HopCoupling(m.H[1], m.n, a, u)
   ELSE IF a = u THEN HopCoupling(m.H[2], m.n, b, d)
   ELSE IF HasJ(m) /\ Cardinality(Differ(a, u, m.n)) = 2 /\ Cardinality(Differ(b, d, m.n)) = 2 THEN ExchangeElem(m, a, b, u, d) ELSE R(0)
SzRow(m, ups, dws, r) ==
   LET dup == Len(ups)
   IN TLCEval([c \in 1..(dup * Len(dws)) |->
        SzElem(m, ups[((r-1) % dup) + 1], dws[((r-1) \div dup) + 1], ups[((c-1) % dup) + 1], dws[((c-1) \div dup) + 1])])
NElem(m, a, b) ==
   RAdd(IF a = b THEN DiagEnergy(m, UpOf(a, m.n), DwOf(a, m.n)) ELSE R(0),
        IF HasJ(m) /\ Cardinality(Differ(a, b, 2 * m.n)) <= 4 THEN NHamJ(m, a, b) ELSE R(0))
NRow(m, states, r) == TLCEval([c \in 1..Len(states) |-> NElem(m, states[r], states[c])])
=============================================================================
