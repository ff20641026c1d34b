---------------------------- MODULE MCLockstep ----------------------------
(***************************************************************************)
(* Distributed Lanczos as P processes run it: a step is the collectives of *)
(* Step in this order; after a step a process stops or goes on according   *)
(* to values it got from collectives (norm, energy), or because the limit  *)
(* is reached.  The values are the same on all processes, so whatever they *)
(* are and however the processes interleave, matching calls are the same   *)
(* collective, nobody waits for ever, and all make as many steps.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Procs, Limit

Step == <<"norm", "cols", "cols", "rows", "rows", "overlap">>
VARIABLES pc, step, posted, stops, log
(* posted[p]: collectives process p has entered; log: what they were, per   *)
(* process; stops[n]: does the value of step n say stop? decided when first *)
(* asked for.                                                               *)
vars == <<pc, step, posted, stops, log>>
Init == /\ pc = [p \in Procs |-> 1]
        /\ step = [p \in Procs |-> 1]
        /\ posted = [p \in Procs |-> FALSE]
        /\ stops \in [1..Limit -> BOOLEAN]
        /\ log = [p \in Procs |-> <<>>]
Done(p) == pc[p] = 0
Enter(p) == /\ ~Done(p) /\ ~posted[p]
            /\ posted' = [posted EXCEPT ![p] = TRUE]
            /\ log' = [log EXCEPT ![p] = Append(@, Step[pc[p]])]
            /\ UNCHANGED <<pc, step, stops>>
Leave(p) == /\ posted[p]
            /\ \A q \in Procs : Len(log[q]) >= Len(log[p])
            /\ posted' = [posted EXCEPT ![p] = FALSE]
            /\ IF pc[p] < Len(Step) THEN pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED step
               ELSE IF stops[step[p]] \/ step[p] = Limit THEN pc' = [pc EXCEPT ![p] = 0] /\ UNCHANGED step
               ELSE pc' = [pc EXCEPT ![p] = 1] /\ step' = [step EXCEPT ![p] = @ + 1]
            /\ UNCHANGED <<stops, log>>
Stay == (\A p \in Procs : Done(p)) /\ UNCHANGED vars
Next == (\E p \in Procs : Enter(p) \/ Leave(p)) \/ Stay

Matching == \A p, q \in Procs : \A n \in DOMAIN log[p] \cap DOMAIN log[q] : log[p][n] = log[q][n]
SameSteps == (\A p \in Procs : Done(p)) => \A p, q \in Procs : step[p] = step[q]
Close == \A p, q \in Procs : Len(log[p]) - Len(log[q]) <= 1
=============================================================================
