---------------------------- MODULE MCTranspose ----------------------------
(***************************************************************************)
(* P processes run programs of collective transposes.  A process sends its *)
(* pieces, then takes the pieces meant for it in any order, and goes on    *)
(* when it has them all, whether or not the others have; messages between  *)
(* two processes keep their order.  In every interleaving every process    *)
(* ends with its own block, nobody waits for ever, and a process is never  *)
(* more than one collective ahead of another.                              *)
(***************************************************************************)
EXTENDS Transpose, FiniteSets, TLC

CONSTANTS Ps, Ms, Programs       \* e.g. <<"dw","up">>
Loops == {<<"dw">>, <<"up">>, <<"dw", "up">>, <<"up", "dw">>, <<"dw", "up", "dw">>}
Once == {<<"dw">>, <<"up">>, <<"dw", "up">>}
VARIABLES P, m, prog, pc, sent, buf, got, chan

N == P * m
Procs == 0..(P-1)
G(i, j) == N * i + j
Init == /\ P \in Ps /\ m \in Ms /\ prog \in Programs
        /\ pc = [p \in Procs |-> 1]
        /\ sent = [p \in Procs |-> FALSE]
        /\ buf = [p \in Procs |-> IF prog[1] = "dw" THEN RowBlock(G, N, m, p) ELSE ColBlock(G, N, m, p)]
        /\ got = [p \in Procs |-> [q \in Procs |-> <<>>]]
        /\ chan = [p \in Procs |-> [q \in Procs |-> <<>>]]
Busy(p) == pc[p] <= Len(prog)

Post(p) == /\ Busy(p) /\ ~sent[p]
           /\ sent' = [sent EXCEPT ![p] = TRUE]
           /\ chan' = [chan EXCEPT ![p] = [q \in Procs |-> Append(chan[p][q],
                          IF prog[pc[p]] = "dw" THEN ToCols(buf[p], m, q) ELSE ToRows(buf[p], m, q))]]
           /\ UNCHANGED <<P, m, prog, pc, buf, got>>
Take(p, q) == /\ Busy(p) /\ sent[p] /\ got[p][q] = <<>> /\ chan[q][p] # <<>>
              /\ got' = [got EXCEPT ![p][q] = Head(chan[q][p])]
              /\ chan' = [chan EXCEPT ![q][p] = Tail(@)]
              /\ UNCHANGED <<P, m, prog, pc, sent, buf>>
Leave(p) == /\ Busy(p) /\ sent[p] /\ \A q \in Procs : got[p][q] # <<>>
            /\ LET s == [k \in 1..P |-> got[p][k-1]]
               IN buf' = [buf EXCEPT ![p] = IF prog[pc[p]] = "dw" THEN JoinCols(s, m, P) ELSE JoinRows(s, m, P)]
            /\ pc' = [pc EXCEPT ![p] = @ + 1]
            /\ sent' = [sent EXCEPT ![p] = FALSE]
            /\ got' = [got EXCEPT ![p] = [q \in Procs |-> <<>>]]
            /\ UNCHANGED <<P, m, prog, chan>>
Finished == \A p \in Procs : ~Busy(p)
Stay == Finished /\ UNCHANGED <<P, m, prog, pc, sent, buf, got, chan>>
Next == (\E p \in Procs : Post(p) \/ Leave(p) \/ \E q \in Procs : Take(p, q)) \/ Stay

(* Before collective number k of its program a process holds this block.   *)
Expected(p, k) == IF k <= Len(prog) THEN (IF prog[k] = "dw" THEN RowBlock(G, N, m, p) ELSE ColBlock(G, N, m, p))
                  ELSE IF prog[k-1] = "dw" THEN ColBlock(G, N, m, p) ELSE RowBlock(G, N, m, p)
OwnBlock == \A p \in Procs : buf[p] = Expected(p, pc[p])
InStep == \A p, q \in Procs : pc[p] - pc[q] <= 1
Drained == Finished => \A p, q \in Procs : chan[p][q] = <<>>
=============================================================================
