----------------------------- MODULE TrSession -----------------------------
(***************************************************************************)
(* Recorded sessions.  The table of answers is what each query gives when  *)
(* it is the first ever made on its own copy of the data; a session must   *)
(* give those answers again, in any order, and leave the data as they are. *)
(***************************************************************************)
EXTENDS Observe, Session, RealArith

VARIABLES l, bad, st
Empty == [x \in {} |-> ""]
Fresh == [version |-> "built", held |-> Empty, table |-> Empty, data |-> Empty]

Largest(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN R(0) ELSE RMaxOf(F[i-1], RAbs(s[i])) IN F[Len(s)]
Same(a, b) == /\ Len(a) = Len(b)
              /\ LET t == RMul("1e-9", RAdd(1, Largest(b))) IN \A i \in DOMAIN a : a[i] = b[i] \/ RNear(a[i], b[i], t)
Answers(e, version) ==
   LET k == <<e.name, version>>
   IN IF k \notin DOMAIN st.table THEN {"harness-no-answer-known"}
      ELSE Failing(<< <<"answers-alike:" \o e.name, e.raised = st.table[k].raised>>,
                      <<"same-answer:" \o e.name, e.raised # "" \/ Same(e.out, st.table[k].out)>> >>)
Kept(e) == Failing(<< <<"eigenspace-kept:" \o e.name, e.after[1] = e.before[1]>>, <<"model-kept:" \o e.name, e.after[2] = e.before[2]>>,
                      <<"arguments-kept:" \o e.name, e.after[3] = e.before[3]>> >>)
StepFails(e) ==
   (IF e.before[1] = st.data[st.version] THEN {} ELSE {"data-of-the-version"}) \cup
   CASE e.act = "query" -> Kept(e) \cup Answers(e, st.version)
     [] e.act = "adapt" -> Kept(e)
     [] e.act = "hold" -> Kept(e)
     [] e.act = "call" -> Kept(e) \cup (IF e.name \in DOMAIN st.held THEN Answers(e, st.held[e.name]) ELSE {"harness-not-held"})
     [] e.act = "screen" -> Failing(<< <<"screened-alike", e.after[1] = st.data[Screened(st.version, e.name)]>>,
                                       <<"model-kept:screen", e.after[2] = e.before[2]>>, <<"arguments-kept:screen", e.after[3] = e.before[3]>> >>)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
StepTo(e) == CASE e.act = "screen" -> [st EXCEPT !.version = Screened(@, e.name)]
               [] e.act = "hold" -> [st EXCEPT !.held = Put(@, e.name, st.version)]
               [] OTHER -> st

Fails(e) == CASE e.op = "step" -> StepFails(e)
              [] e.op = "fresh" -> Failing(<< <<"eigenspace-kept:" \o e.name, e.after[1] = st.data[e.version]>>,
                                              <<"model-kept:" \o e.name, e.after[2] = e.before[2]>>, <<"arguments-kept:" \o e.name, e.after[3] = e.before[3]>> >>)
              [] e.op \in {"case", "data", "begin"} -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})
After(e) == CASE e.op = "case" -> Fresh
              [] e.op = "data" -> [st EXCEPT !.data = Put(@, e.version, e.digest)]
              [] e.op = "fresh" -> [st EXCEPT !.table = Put(@, <<e.name, e.version>>, [out |-> e.out, raised |-> e.raised])]
              [] e.op = "begin" -> [st EXCEPT !.version = "built", !.held = Empty]     \* a session on a new copy
              [] e.op = "step" -> StepTo(e)
              [] OTHER -> st

Init == l = 1 /\ bad = <<>> /\ st = Fresh
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ st' = After(Log[l])
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
