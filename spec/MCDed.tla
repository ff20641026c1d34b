------------------------------- MODULE MCDed -------------------------------
(***************************************************************************)
(* The averaging loop.  Every draw gives one value per impurity; those of   *)
(* the impurities whose solution is the wanted one are added up.  A round   *)
(* ends with the first draw that at least one impurity accepts; after the   *)
(* rounds asked for the sums are divided by how often each was added to.    *)
(* The k-th draw stands for the value 2^k, so that a sum tells its terms.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Impurities, MaxRounds, MaxDraws

VARIABLES asked, rounds, draws, sum, count
vars == <<asked, rounds, draws, sum, count>>
Imps == 1..Impurities
Value(k) == 2 ^ k

Init == asked \in 1..MaxRounds /\ rounds = 0 /\ draws = <<>> /\ sum = [i \in Imps |-> 0] /\ count = [i \in Imps |-> 0]
Done == rounds = asked
Draw(A) == /\ ~Done /\ Len(draws) < MaxDraws
           /\ draws' = Append(draws, A)
           /\ sum' = [i \in Imps |-> IF i \in A THEN sum[i] + Value(Len(draws')) ELSE sum[i]]
           /\ count' = [i \in Imps |-> IF i \in A THEN count[i] + 1 ELSE count[i]]
           /\ rounds' = IF A # {} THEN rounds + 1 ELSE rounds
           /\ UNCHANGED asked
Next == \E A \in SUBSET Imps : Draw(A)

Accepted(i) == {k \in DOMAIN draws : i \in draws[k]}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN Value(k) + Total(S \ {k})
SumOfTheAccepted == \A i \in Imps : sum[i] = Total(Accepted(i)) /\ count[i] = Cardinality(Accepted(i))
RoundsAreAccepted == rounds = Cardinality({k \in DOMAIN draws : draws[k] # {}})
EndsOnAcceptance == Done => draws[Len(draws)] # {}
NoMoreThanAsked == rounds <= asked
(* One impurity is accepted once a round: dividing by the rounds is right   *)
(* then, and only then.                                                     *)
RoundsSufficeForOne == Impurities = 1 => \A i \in Imps : Done => count[i] = asked
AtMostTheRounds == \A i \in Imps : count[i] <= rounds

Collect == IF Done THEN TLCSet(1, Append(TLCGet(1), [asked |-> asked, draws |-> draws])) ELSE TRUE
ASSUME TLCSet(1, <<>>)
Save == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
