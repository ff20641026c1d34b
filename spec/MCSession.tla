----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Every history of a session up to a length: the histories the real code  *)
(* is made to repeat.  The data are modelled by levels that screening      *)
(* removes; the answer to a query is what it reads.                        *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils
CONSTANTS Queries, Holds, Length

VARIABLES space, version, held, hist, answer
vars == <<space, version, held, hist, answer>>

Levels == 1..3                       \* 1 is the ground state
Below(c) == IF c = "mild" THEN {1, 2} ELSE {1}
LevelsOf(v) == CASE v = "built" -> Levels [] v = "mild" -> {1, 2} [] v = "hard" -> {1}

Init == space = Levels /\ version = "built" /\ held = [h \in Holds |-> {}] /\ hist = <<>> /\ answer = <<>>
Step(op) == Len(hist) < Length /\ hist' = Append(hist, op)
Query(q) == Step(<<"query", q>>) /\ answer' = <<q, space>> /\ UNCHANGED <<space, version, held>>
Screen(c) == Step(<<"screen", c>>) /\ space' = space \cap Below(c) /\ version' = Screened(version, c) /\ answer' = <<>> /\ UNCHANGED held
Adapt == Step(<<"adapt", "">>) /\ answer' = <<>> /\ UNCHANGED <<space, version, held>>
Hold(h) == Step(<<"hold", h>>) /\ held' = [held EXCEPT ![h] = space] /\ answer' = <<>> /\ UNCHANGED <<space, version>>
Call(h) == held[h] # {} /\ Step(<<"call", h>>) /\ answer' = <<h, held[h]>> /\ UNCHANGED <<space, version, held>>
Next == \/ \E q \in Queries : Query(q)
        \/ \E c \in {"mild", "hard"} : Screen(c)
        \/ Adapt
        \/ \E h \in Holds : Hold(h) \/ Call(h)

(* What is replayed is checked for this: the version tells the data, and    *)
(* so the answer to a query is a function of its name and the version.     *)
VersionTells == space = LevelsOf(version)
NeverEmpty == 1 \in space
LastVersion(k) ==      \* the version the first k operations of the history leave
   LET F[i \in 0..k] == IF i = 0 THEN "built" ELSE IF hist[i][1] = "screen" THEN Screened(F[i-1], hist[i][2]) ELSE F[i-1]
   IN F[k]
AnswersByVersion ==
   (answer # <<>>) =>
      LET last == hist[Len(hist)]
          made == IF last[1] = "query" THEN Len(hist)
                  ELSE CHOOSE i \in 1..(Len(hist)-1) : /\ hist[i] = <<"hold", last[2]>>
                                                       /\ \A j \in (i+1)..Len(hist) : hist[j] # <<"hold", last[2]>>
      IN answer = <<last[2], LevelsOf(LastVersion(made))>>
OnlyScreeningChanges == [][space' # space => hist'[Len(hist')][1] = "screen"]_vars

Collect == IF Len(hist) = Length THEN TLCSet(1, Append(TLCGet(1), hist)) ELSE TRUE
ASSUME TLCSet(1, <<>>)
Save == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
