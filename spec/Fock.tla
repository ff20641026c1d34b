-------------------------------- MODULE Fock --------------------------------
(***************************************************************************)
(* Fock states of n modes and the fermion algebra on them.                 *)
(*                                                                         *)
(* Abstractly a state is the set of its occupied modes, a subset of        *)
(* 0..n-1; concretely it is the number whose binary digit i is the         *)
(* occupation of mode i.  The order of the modes that fixes the fermion    *)
(* signs is the one the library documents: an operator on mode i passes    *)
(* the occupied modes above i.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

P2 == [i \in 0..30 |-> 2^i]

Bit(s, i) == (s \div P2[i]) % 2
Sites(s, n) == {i \in 0..(n-1) : Bit(s, i) = 1}

RECURSIVE CodeOf(_)
CodeOf(S) == IF S = {} THEN 0
             ELSE LET i == CHOOSE x \in S : TRUE IN P2[i] + CodeOf(S \ {i})

RECURSIVE OnesBetween(_,_,_)          \* occupied modes in lo..hi
OnesBetween(s, lo, hi) == IF lo > hi THEN 0 ELSE Bit(s, lo) + OnesBetween(s, lo+1, hi)
Count(s, n) == OnesBetween(s, 0, n-1)

RECURSIVE Binom(_,_)
Binom(n, k) == IF k < 0 \/ k > n THEN 0
               ELSE IF 2*k > n THEN Binom(n, n-k)
               ELSE IF k = 0 THEN 1 ELSE (Binom(n, k-1) * (n-k+1)) \div k

Range(s) == {s[i] : i \in DOMAIN s}
Increasing(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]

(* The basis of the states with p of n modes occupied, in increasing order. *)
Basis(n, p) == SelectSeq([i \in 1..P2[n] |-> i-1], LAMBDA s : Count(s, n) = p)
(* The same said locally, so that it can be decided of a long list.         *)
IsBasis(b, n, p) == /\ Len(b) = Binom(n, p)
                    /\ Increasing(b)
                    /\ \A i \in DOMAIN b : b[i] >= 0 /\ b[i] < P2[n] /\ Count(b[i], n) = p

(* Position (from 0) of s in the list b, -1 if it is not in it. *)
IndexIn(b, s) == IF \E i \in DOMAIN b : b[i] = s THEN (CHOOSE i \in DOMAIN b : b[i] = s) - 1 ELSE -1

(* Fermion operators: <<sign, state>>, sign 0 when the result vanishes. *)
Parity(k) == IF k % 2 = 0 THEN 1 ELSE -1
JWSign(s, i, n) == Parity(OnesBetween(s, i+1, n-1))
Ann(s, i, n) == IF Bit(s, i) = 1 THEN <<JWSign(s, i, n), s - P2[i]>> ELSE <<0, 0>>
Cre(s, i, n) == IF Bit(s, i) = 0 THEN <<JWSign(s, i, n), s + P2[i]>> ELSE <<0, 0>>

(* Products of operators, applied right to left; op = <<"c"|"d", mode>>.   *)
RECURSIVE Apply(_,_,_)
Apply(ops, s, n) ==
   IF ops = <<>> THEN <<1, s>>
   ELSE LET op == ops[Len(ops)]
            r  == IF op[1] = "c" THEN Ann(s, op[2], n) ELSE Cre(s, op[2], n)
        IN IF r[1] = 0 THEN <<0, 0>>
           ELSE LET q == Apply(SubSeq(ops, 1, Len(ops)-1), r[2], n)
                IN <<r[1] * q[1], q[2]>>
Elem(ops, a, b, n) == LET r == Apply(ops, b, n) IN IF r[1] # 0 /\ r[2] = a THEN r[1] ELSE 0

(* c+_i c_j on states where i is empty and j is full: the two signs cancel  *)
(* but for the modes strictly between.                                      *)
HopSign(s, i, j) == IF i < j THEN Parity(OnesBetween(s, i+1, j-1)) ELSE Parity(OnesBetween(s, j+1, i-1))
HopState(s, i, j) == s - P2[j] + P2[i]

(* Composite index of the pair (iup, idw) in a sector with dup up states.   *)
StateIndex(iup, idw, dup) == iup + dup * idw
SpinIndices(i, dup) == <<i % dup, i \div dup>>
SectorIndex(n, nup, ndw) == nup * (n+1) + ndw
NumSpins(k, n) == <<k \div (n+1), k % (n+1)>>

(* Charge sectors next to (nup, ndw); <<>> when there is none. *)
AddTo(n, q, sp) == LET r == IF sp = 0 THEN <<q[1]+1, q[2]>> ELSE <<q[1], q[2]+1>>
                   IN IF r[1] > n \/ r[2] > n THEN <<>> ELSE r
TakeFrom(q, sp)  == LET r == IF sp = 0 THEN <<q[1]-1, q[2]>> ELSE <<q[1], q[2]-1>>
                   IN IF r[1] < 0 \/ r[2] < 0 THEN <<>> ELSE r
=============================================================================
