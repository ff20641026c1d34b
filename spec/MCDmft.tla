------------------------------- MODULE MCDmft -------------------------------
(***************************************************************************)
(* The self-consistency loop.  A call makes one step: the hybridisation    *)
(* given is made causal, the impurity solved with it, and a new one read   *)
(* off the lattice.  When it is close to the one used the loop is done;    *)
(* otherwise the step is counted, and beyond the limit the loop has        *)
(* failed.  Whatever the caller feeds back (the last result, a mixture, or *)
(* anything) these histories are all there are.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxIters, Length

VARIABLES max, it, steps, far, used, ended, hist
vars == <<max, it, steps, far, used, ended, hist>>

Init == max \in MaxIters /\ it = 0 /\ steps = 0 /\ far = 0 /\ used = "none" /\ ended = "" /\ hist = <<>>
Causal(sign) == IF sign = "positive" THEN "negative" ELSE sign
Call(dist, sign) ==
   /\ Len(hist) < Length
   /\ hist' = Append(hist, <<dist, sign>>)
   /\ used' = Causal(sign)
   /\ steps' = steps + 1
   /\ IF dist = "close" THEN ended' = "Converged" /\ UNCHANGED <<it, far>>
      ELSE /\ it' = it + 1 /\ far' = far + 1
           /\ ended' = IF it' > max THEN "FailedToConverge" ELSE ""
   /\ UNCHANGED max
Next == \E d \in {"close", "far"}, s \in {"negative", "positive"} : Call(d, s)

AlwaysCausal == used \in {"none", "negative"}
CountsSteps == steps = Len(hist) /\ it = far /\ far <= steps
ConvergedExactly == (ended = "Converged") <=> (hist # <<>> /\ hist[Len(hist)][1] = "close")
FailedExactly == (ended = "FailedToConverge") <=> (hist # <<>> /\ hist[Len(hist)][1] = "far" /\ far > max)
(* a caller that stops at the first exception makes at most max + 1 steps *)
StopsInTime == \A k \in DOMAIN hist : (\A j \in 1..k : hist[j][1] = "far") => (k <= max \/ ended # "" \/ k < Len(hist) \/ far > max)
NoSilentOverrun == (ended = "" /\ hist # <<>>) => far <= max

Collect == IF Len(hist) = Length THEN TLCSet(1, Append(TLCGet(1), [max |-> max, calls |-> hist])) ELSE TRUE
ASSUME TLCSet(1, <<>>)
Save == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
