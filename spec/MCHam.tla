------------------------------- MODULE MCHam -------------------------------
(* The Hamiltonians of Ham.tla on all sectors of small models: hermitian,    *)
(* built as the operator products say, the charge sector being the sum of    *)
(* the spin sectors, and spin rotation invariant when the model is.          *)
EXTENDS Ham
CONSTANT Sizes
VARIABLES m, q
Sym(n, dg, off) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN dg[i] ELSE off[IF i < j THEN <<i,j>> ELSE <<j,i>>]]]
Off(n, f(_,_)) == [p \in (1..n) \X (1..n) |-> f(p[1], p[2])]
Models(n) ==
  { [n |-> n,
     H |-> << Sym(n, [i \in 1..n |-> i], Off(n, LAMBDA i, j : IF t = 0 THEN 0 ELSE i - 2*j)),
              Sym(n, [i \in 1..n |-> IF s THEN i ELSE 2-i], Off(n, LAMBDA i, j : IF t = 0 THEN 0 ELSE IF s THEN i - 2*j ELSE j)) >>,
     U |-> Sym(n, [i \in 1..n |-> 3+i], Off(n, LAMBDA i, j : i+j)),
     Jx |-> IF jx THEN Sym(n, [i \in 1..n |-> 0], Off(n, LAMBDA i, j : 2*i - j + 3)) ELSE <<>>,
     Jp |-> IF jp THEN Sym(n, [i \in 1..n |-> 0], Off(n, LAMBDA i, j : 5*j - i)) ELSE <<>>,
     hf |-> hf, mu |-> -1, z |-> <<>>, same |-> s]
   : t \in {0,1}, s, jx, jp, hf \in BOOLEAN }
Init == m \in UNION {Models(n) : n \in Sizes} /\ q = <<0, 0>>
Next == UNCHANGED m /\ \E sp \in 0..1 : AddTo(m.n, q, sp) # <<>> /\ q' = AddTo(m.n, q, sp)
Spec == Init /\ [][Next]_<<m, q>>

ups == Basis(m.n, q[1])
dws == Basis(m.n, q[2])
H0 == SzHam(m, ups, dws)
D == Len(ups) * Len(dws)
Eq(a, b) == RNear(a, b, "1e-60")
Hermitian == \A i, j \in 1..D : Eq(H0[i][j], H0[j][i])
Shortcut == \A i, j \in 0..(m.n-1), a, b \in 1..Len(ups) : i # j =>
               HopElem(ups[a], ups[b], i, j) = Elem(<<<<"d",i>>, <<"c",j>>>>, ups[a], ups[b], m.n)

\* The string of 2n modes and the pair (up, dw) differ by a sign: moving the
\* down operators past the up ones costs (-1)^(nup*ndw) only, the same for all
\* states of a sector, so the blocks must be equal element by element.
NStates == [k \in 1..D |-> ups[((k-1) % Len(ups)) + 1] + P2[m.n] * dws[((k-1) \div Len(ups)) + 1]]
ChargeSector ==
   LET m0 == [m EXCEPT !.H = [s \in 1..2 |-> [i \in 1..m.n |-> [j \in 1..m.n |-> IF i = j THEN m.H[s][i][i] ELSE 0]]]]
       A == SzHam(m0, ups, dws)
       B == NHam(m0, NStates)
   IN \A i, j \in 1..D : Eq(A[i][j], B[i][j])

\* [H, S-] = 0 when up and down see the same one-body terms
SpinLower(u, d, a, b) ==      \* <a,b| sum_i d+_i u_i |u,d>
   LET f[i \in -1..(m.n-1)] == IF i = -1 THEN 0
          ELSE f[i-1] + Elem(<<<<"c", i>>>>, a, u, m.n) * Elem(<<<<"d", i>>>>, b, d, m.n)
   IN f[m.n-1]
SpinSymmetric ==
  (m.same /\ q[1] > 0 /\ q[2] < m.n) =>
   LET ups1 == Basis(m.n, q[1]-1)
       dws1 == Basis(m.n, q[2]+1)
       D1 == Len(ups1) * Len(dws1)
       H1 == SzHam(m, ups1, dws1)
       S == TLCEval([r \in 1..D1 |-> [c \in 1..D |->
              SpinLower(ups[((c-1) % Len(ups))+1], dws[((c-1) \div Len(ups))+1],
                        ups1[((r-1) % Len(ups1))+1], dws1[((r-1) \div Len(ups1))+1])]])
       X == RMatMul(H1, S)
       Y == RMatMul(S, H0)
   IN \A i \in 1..D1, j \in 1..D : Eq(X[i][j], Y[i][j])
=============================================================================
