------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* What every trace specification shares: the recorded events, the         *)
(* position reached, and the verdicts.  A specification of a trace is a    *)
(* state machine that consumes one event per step; the clauses an event    *)
(* fails are collected, so that one trace reports all it has to report.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

SetSeq(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F[T \ {x}] IN F[S]

(* Clauses are pairs <<name, holds>>; the names of those that do not hold. *)
Failing(cs) == {cs[i][1] : i \in {j \in DOMAIN cs : ~cs[j][2]}}

(* Events that no specification allows: an operation that must answer      *)
(* raised, or the process died or hung.                                    *)
Broken(e) == IF e.op = "raised" THEN {"raised"} ELSE IF e.op = "died" THEN {"died"} ELSE {}

Note(bad, l, f) == IF f = {} THEN bad ELSE Append(bad, [l |-> l, clauses |-> SetSeq(f)])
Publish(bad, l) == TLCSet(1, [bad |-> bad, n |-> l])
Save == JsonSerialize(IOEnv.OUT, TLCGet(1))

HasField(r, f) == f \in DOMAIN r
=============================================================================
