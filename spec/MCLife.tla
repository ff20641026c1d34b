------------------------------- MODULE MCLife -------------------------------
(***************************************************************************)
(* The life of an eigenspace: built with the counts asked for, screened,   *)
(* its counts adapted to what survived, built again.  A sector has a       *)
(* dimension, the number of its states that a cutoff leaves, the number    *)
(* asked for, and the number held (0 when it is absent).                   *)
(* Spec lets the caller do anything in any order, and its histories are    *)
(* replayed into the code; Cycle is the loop a caller runs, and there the  *)
(* counts must settle at what is relevant.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS Dims,      \* dimensions of the sectors, as a set: every assignment to the two sectors is tried
          Length

Sct == {"ground", "other"}
VARIABLES dim, relevant, want, have, hist, next
vars == <<dim, relevant, want, have, hist, next>>
Cuts == {"mild", "hard"}
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b

Init == /\ dim \in [Sct -> Dims]
        /\ relevant \in {r \in [Sct -> [Cuts -> 0..4]] : \A s \in Sct : r[s]["hard"] <= r[s]["mild"] /\ r[s]["mild"] <= dim[s]}
        /\ \A c \in Cuts : relevant["ground"][c] >= 1      \* the ground state outlives every cutoff
        /\ want \in {w \in [Sct -> 1..4] : \A s \in Sct : w[s] <= dim[s]}
        /\ have = [s \in Sct |-> 0] /\ hist = <<>> /\ next = "build"

Built == have' = want /\ UNCHANGED want
Cut(c) == have' = [s \in Sct |-> Least(have[s], relevant[s][c])] /\ UNCHANGED want
Adapted == /\ want' = [s \in Sct |-> IF have[s] = want[s] THEN Least(dim[s], want[s] + 1) ELSE Most(1, want[s] - 1)]
           /\ UNCHANGED have
Same == UNCHANGED <<dim, relevant>>

(* ---- any order *)
Do(op) == Len(hist) < Length /\ (hist = <<>> => op = "build") /\ hist' = Append(hist, op)
Next == /\ Same /\ UNCHANGED next
        /\ \/ Do("build") /\ Built
           \/ \E c \in Cuts : Do(c) /\ Cut(c)
           \/ Do("adapt") /\ Adapted

(* ---- the loop of a caller, with one cutoff *)
Cycle == /\ Same /\ UNCHANGED hist
         /\ CASE next = "build" -> Built /\ next' = "screen"
              [] next = "screen" -> Cut("mild") /\ next' = "adapt"
              [] next = "adapt" -> Adapted /\ next' = "build"
Loop == Init /\ [][Cycle]_vars /\ WF_vars(Cycle)

CountsInRange == \A s \in Sct : 1 <= want[s] /\ want[s] <= dim[s]
HoldsNoMore == \A s \in Sct : 0 <= have[s] /\ have[s] <= dim[s]
GroundStays == hist # <<>> => have["ground"] >= 1
OnlyBuildingAdds == [][\A s \in Sct : have'[s] > have[s] => hist' # hist /\ hist'[Len(hist')] = "build"]_vars
ByOne == [][\A s \in Sct : want'[s] - want[s] \in {-1, 0, 1}]_vars
(* What is asked for comes to rest within one of what is relevant (never    *)
(* under it, so that nothing relevant is missed in the end but at a turn    *)
(* of the oscillation), and a sector with nothing relevant is asked for one.*)
Near(s) == LET t == relevant[s]["mild"] IN Most(1, t) - 1 <= want[s] /\ want[s] <= t + 1
Settles == <>[](\A s \in Sct : Near(s))
NothingMissedForGood == \A s \in Sct : []<>(want[s] >= relevant[s]["mild"])

Collect == IF Len(hist) = Length THEN TLCSet(1, TLCGet(1) \cup {hist}) ELSE TRUE
ASSUME TLCSet(1, {})
Save == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(1)))
=============================================================================
