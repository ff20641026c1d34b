------------------------------ MODULE TrSparse ------------------------------
(* P07: recorded sparse products against the mathematical product.  The     *)
(* state is the operator built last; applying it never changes it.         *)
EXTENDS Observe, Sparse

VARIABLES l, bad, op

SameVec(a, b, t) == Len(a) = Len(b) /\ RFar(a, b, t) = 0

RECURSIVE Image(_,_,_)
Image(parts, w, y) == IF parts = <<>> THEN y ELSE Image(Tail(parts), w, Part(Head(parts), w, y))
PartSize(p) == IF p.kind = "diag" THEN Size(p.diag) ELSE Size(p.A.data)
OpTol(o, w) == RMul("1e-12", RMul(RAdd(1, RMul(RSum([i \in DOMAIN o.parts |-> PartSize(o.parts[i])]), Size(w))), o.N + 1))
Unit(N, j) == [i \in 1..N |-> IF i = j THEN R(1) ELSE R(0)]
Zero(N) == [i \in 1..N |-> R(0)]
Column(D, j) == [i \in DOMAIN D |-> D[i][j]]

Fails(o, e) ==
   CASE e.op = "kernel" ->
          Failing(<< <<"product", SameVec(e.out, Product(e.kind, e.A, e.w, e.y), Tol(e.A, e.w, e.y))>>,
                     <<"inputs-kept", e.same>> >>)
     [] e.op = "stress" ->
          LET p == Product(e.kind, e.A, e.w, e.y) IN
          Failing(<< <<"one-outcome", Len(e.outs) = 1>>,
                     <<"product-any-schedule", \A i \in DOMAIN e.outs : SameVec(e.outs[i], p, "1e-9")>> >>)
     [] e.op = "apply" ->
          Failing(<< <<"operator", SameVec(e.out, Image(o.parts, e.w, Zero(o.N)), OpTol(o, e.w))>>,
                     <<"vector-kept", e.same>>, <<"output-array", e.held>> >>)
     [] e.op = "dense" ->
          Failing(<< <<"dense", /\ Len(e.D) = o.N
                                /\ \A i \in DOMAIN e.D : Len(e.D[i]) = o.N
                                /\ \A j \in 1..o.N : SameVec(Column(e.D, j), Image(o.parts, Unit(o.N, j), Zero(o.N)), OpTol(o, Unit(o.N, j)))>>,
                     <<"diagonal-kept", e.same>> >>)
     [] e.op \in {"case", "operator"} -> {}
     [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})

Init == l = 1 /\ bad = <<>> /\ op = <<>>
Next == /\ l <= Len(Log)
        /\ op' = IF Log[l].op = "operator" THEN Log[l] ELSE op
        /\ bad' = Note(bad, l, Fails(op, Log[l]))
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
