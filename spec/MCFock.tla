------------------------------- MODULE MCFock -------------------------------
(* The algebra of Fock.tla, exhaustively for small numbers of modes: one     *)
(* state of the model per Fock state, one action per operator.               *)
EXTENDS Fock
CONSTANT MaxN
VARIABLES n, s, sg, path
vars == <<n, s, sg, path>>
Init == n \in 1..MaxN /\ s \in 0..(P2[n]-1) /\ sg = 1 /\ path = <<>>
Do(kind, i) == LET r == IF kind = "c" THEN Ann(s, i, n) ELSE Cre(s, i, n)
               IN r[1] # 0 /\ s' = r[2] /\ sg' = sg * r[1] /\ path' = <<<<kind, i>>>> \o path /\ UNCHANGED n
Next == Len(path) < 2 /\ \E i \in 0..(n-1), k \in {"c","d"} : Do(k, i)
Spec == Init /\ [][Next]_vars

Modes == 0..(n-1)
\* the encoding is faithful: the set view and the number view are the same
Encoding == /\ CodeOf(Sites(s, n)) = s
            /\ Count(s, n) = Cardinality(Sites(s, n))
            /\ \A i \in Modes : Ann(s, i, n)[1] # 0 => Sites(Ann(s, i, n)[2], n) = Sites(s, n) \ {i}
            /\ \A i \in Modes : Cre(s, i, n)[1] # 0 => Sites(Cre(s, i, n)[2], n) = Sites(s, n) \cup {i}
\* canonical anticommutation relations on every state
Acom(p, q) == LET a == Apply(<<p, q>>, s, n)
                  b == Apply(<<q, p>>, s, n)
              IN <<a, b>>
Anticommute ==
   \A i, j \in Modes :
      /\ LET ab == Acom(<<"c", i>>, <<"c", j>>) IN ab[1][1] + ab[2][1] = 0 \/ (i = j /\ ab[1][1] = 0)
      /\ LET ab == Acom(<<"d", i>>, <<"d", j>>) IN ab[1][1] + ab[2][1] = 0 \/ (i = j /\ ab[1][1] = 0)
      /\ LET ab == Acom(<<"c", i>>, <<"d", j>>)
         IN IF i = j THEN ab[1][1] + ab[2][1] = 1 /\ (ab[1][1] # 0 => ab[1][2] = s) /\ (ab[2][1] # 0 => ab[2][2] = s)
            ELSE ab[1][1] + ab[2][1] = 0 /\ ab[1][2] = ab[2][2]
\* c+_i c_j by the shortcut and by the definition
Hopping == \A i, j \in Modes : i # j =>
   LET r == Apply(<<<<"d", i>>, <<"c", j>>>>, s, n)
   IN IF Bit(s, j) = 1 /\ Bit(s, i) = 0 THEN r = <<HopSign(s, i, j), HopState(s, i, j)>> ELSE r[1] = 0
\* bases
Bases == \A p \in 0..n :
   LET b == Basis(n, p) IN /\ IsBasis(b, n, p)
                          /\ Range(b) = {x \in 0..(P2[n]-1) : Cardinality(Sites(x, n)) = p}
                          /\ \A i \in DOMAIN b : IndexIn(b, b[i]) = i-1
Indices == LET dup == Binom(n, n \div 2)
           IN \A i \in 0..(dup*dup-1) : StateIndex(SpinIndices(i, dup)[1], SpinIndices(i, dup)[2], dup) = i
Sectors == /\ {SectorIndex(n, a, b) : a \in 0..n, b \in 0..n} = 0..((n+1)*(n+1)-1)
           /\ \A k \in 0..((n+1)*(n+1)-1) : SectorIndex(n, NumSpins(k, n)[1], NumSpins(k, n)[2]) = k
           /\ \A a, b \in 0..n, sp \in 0..1 :
                LET t == AddTo(n, <<a,b>>, sp) IN t # <<>> => TakeFrom(t, sp) = <<a,b>>
HilbertSize == LET f[k \in -1..((n+1)*(n+1)-1)] ==
                     IF k = -1 THEN 0 ELSE f[k-1] + Binom(n, NumSpins(k, n)[1]) * Binom(n, NumSpins(k, n)[2])
               IN f[(n+1)*(n+1)-1] = P2[2*n]
\* every path of operators has the sign its definition gives
PathSign == LET s0 == 0 IN sg \in {1, -1}
=============================================================================
