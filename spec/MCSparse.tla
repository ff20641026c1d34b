------------------------------ MODULE MCSparse ------------------------------
(***************************************************************************)
(* The parallel kernels as their threads run them.  The rows of the loop   *)
(* are handed to the threads in any order; a thread adds its row's terms   *)
(* to the shared result one at a time, reading and writing in two steps.   *)
(* Whatever the interleaving, the result is y + A w, no entry is ever      *)
(* between a read and a write of two threads, and every row is done once.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, M, Other, Kinds

Patterns == SUBSET ((1..M) \X (1..M))
VARIABLES kind, A, todo, done, cur, res

N == IF kind = "full" THEN M ELSE M * Other
W(k) == k + 1
Y(k) == 10 * k
Val(i, j) == 2 * i + j
Jobs(k) == IF k = "up" THEN 1..Other ELSE 1..M       \* the loop that is distributed

(* The terms job i adds, in order: <<entry of the result, value>>. *)
RowOf(i) == LET S == {p \in A : p[1] = i}
                F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET p == CHOOSE q \in T : \A r \in T : q[2] <= r[2] IN <<p[2]>> \o F[T \ {p}]
            IN F[S]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Terms(k, i) ==
   IF k = "up" THEN Flat([r \in 1..M |-> [c \in DOMAIN RowOf(r) |-> <<(i-1)*M + r, Val(r, RowOf(r)[c]) * W((i-1)*M + RowOf(r)[c])>>]])
   ELSE IF k = "dw" THEN Flat([c \in DOMAIN RowOf(i) |-> [s \in 1..Other |-> <<(i-1)*Other + s, Val(i, RowOf(i)[c]) * W((RowOf(i)[c]-1)*Other + s)>>]])
   ELSE [c \in DOMAIN RowOf(i) |-> <<i, Val(i, RowOf(i)[c]) * W(RowOf(i)[c])>>]

Idle == [job |-> 0, left |-> <<>>, tmp |-> -1]
Init == /\ kind \in Kinds
        /\ A \in Patterns
        /\ todo = Jobs(kind)
        /\ done = {}
        /\ cur = [t \in Threads |-> Idle]
        /\ res = [k \in 1..N |-> Y(k)]

Take(t) == /\ cur[t].job = 0
           /\ \E i \in todo : /\ todo' = todo \ {i}
                              /\ cur' = [cur EXCEPT ![t] = [job |-> i, left |-> Terms(kind, i), tmp |-> -1]]
           /\ UNCHANGED <<kind, A, done, res>>
Read(t) == /\ cur[t].job # 0 /\ cur[t].left # <<>> /\ cur[t].tmp = -1
           /\ cur' = [cur EXCEPT ![t].tmp = res[cur[t].left[1][1]]]
           /\ UNCHANGED <<kind, A, todo, done, res>>
Write(t) == /\ cur[t].job # 0 /\ cur[t].left # <<>> /\ cur[t].tmp # -1
            /\ res' = [res EXCEPT ![cur[t].left[1][1]] = cur[t].tmp + cur[t].left[1][2]]
            /\ cur' = [cur EXCEPT ![t].left = Tail(@), ![t].tmp = -1]
            /\ UNCHANGED <<kind, A, todo, done>>
Finish(t) == /\ cur[t].job # 0 /\ cur[t].left = <<>>
             /\ done' = done \cup {cur[t].job}
             /\ cur' = [cur EXCEPT ![t] = Idle]
             /\ UNCHANGED <<kind, A, todo, res>>
Next == \E t \in Threads : Take(t) \/ Read(t) \/ Write(t) \/ Finish(t)

RECURSIVE Total(_,_)
Total(s, k) == IF s = <<>> THEN 0 ELSE (IF Head(s)[1] = k THEN Head(s)[2] ELSE 0) + Total(Tail(s), k)
RECURSIVE SumTo(_,_)
SumTo(j, f) == IF j = 0 THEN 0 ELSE f[j] + SumTo(j-1, f)

(* The product, said without rows: the (Kronecker-extended) matrix. *)
Ext(r, c) == LET m(i, j) == IF <<i, j>> \in A THEN Val(i, j) ELSE 0 IN
   IF kind = "full" THEN m(r, c)
   ELSE IF kind = "up" THEN IF (r-1) \div M = (c-1) \div M THEN m(((r-1) % M) + 1, ((c-1) % M) + 1) ELSE 0
   ELSE IF (r-1) % Other = (c-1) % Other THEN m(((r-1) \div Other) + 1, ((c-1) \div Other) + 1) ELSE 0
Finished == done = Jobs(kind)
ProductRight == Finished => \A k \in 1..N : res[k] = Y(k) + SumTo(N, [c \in 1..N |-> Ext(k, c) * W(c)])
NoRace == \A t, u \in Threads : t # u /\ cur[t].left # <<>> /\ cur[u].left # <<>> => cur[t].left[1][1] # cur[u].left[1][1]
OnceEach == \A t, u \in Threads : t # u /\ cur[t].job # 0 => cur[t].job # cur[u].job /\ cur[t].job \notin done
=============================================================================
