-------------------------------- MODULE TrHam --------------------------------
(* Recorded sector Hamiltonians (P04, P05: spin-resolved; P06: total charge). *)
EXTENDS Observe, Ham

VARIABLES l, bad

Tol(m) == RMul("1e-12", RAdd(1, RSum([i \in 1..m.n |-> RAdd(RSum([j \in 1..m.n |-> RAdd(RAbs(m.U[i][j]), RAdd(RAbs(Coupling(m.Jx, i-1, j-1)), RAbs(Coupling(m.Jp, i-1, j-1))))]),
                                                     RAdd(RAbs(m.H[1][i][i]), RAbs(m.H[2][i][i])))])))

Forms(e) == <<"same-whatever-the-form", \A i \in DOMAIN e.forms : e.forms[i]>>
MatvecFails(e, full) ==   \* the operators applied to e.v
   e.v = <<>> \/ RFar(e.Hv, RMatVec(full, e.v), "1e-9") = 0

SzFails(e) ==
   LET m == e.m
       dup == Len(e.up)
   IN IF ~(IsBasis(e.up, m.n, e.q[1]) /\ IsBasis(e.dw, m.n, e.q[2])) THEN {"basis"}
      ELSE IF Len(e.rows) # Len(e.ham) \/ \E i \in DOMAIN e.ham : Len(e.ham[i]) # dup * Len(e.dw) THEN {"shape"}
      ELSE Failing(<< <<"matrix-elements", \A i \in DOMAIN e.rows : RFar(e.ham[i], SzRow(m, e.up, e.dw, e.rows[i] + 1), Tol(m)) = 0>>,
                      <<"every-row", e.all => e.rows = [i \in 1..(dup * Len(e.dw)) |-> i-1]>>,
                      <<"operator-form", e.v = <<>> \/ \A i \in DOMAIN e.rows : RNear(e.Hv[i], RDot(e.ham[i], e.v), RMul("1e-10", RAdd(1, RDot([j \in DOMAIN e.v |-> RAbs(e.ham[i][j])], [j \in DOMAIN e.v |-> RAbs(e.v[j])]))))>>,
                      Forms(e), <<"model-kept", e.kept>> >>)

NFails(e) ==
   LET m == e.m
   IN IF ~IsBasis(e.states, 2 * m.n, e.q[1]) THEN {"basis"}
      ELSE IF Len(e.rows) # Len(e.ham) \/ \E i \in DOMAIN e.ham : Len(e.ham[i]) # Len(e.states) THEN {"shape"}
      ELSE Failing(<< <<"matrix-elements", \A i \in DOMAIN e.rows : RFar(e.ham[i], NRow(m, e.states, e.rows[i] + 1), Tol(m)) = 0>>,
                      <<"every-row", e.all => e.rows = [i \in 1..Len(e.states) |-> i-1]>>,
                      <<"operator-form", e.v = <<>> \/ \A i \in DOMAIN e.rows : RNear(e.Hv[i], RDot(e.ham[i], e.v), "1e-9")>>,
                      Forms(e), <<"model-kept", e.kept>> >>)

(* The levels of a charge are those of its spin-resolved sectors together. *)
SpectrumFails(e) == Failing(<< <<"union-of-sectors", RFar(e.charge, e.union, "1e-9") = 0>> >>)

Fails(e) == CASE e.op = "sz" -> SzFails(e)
              [] e.op = "n" -> NFails(e)
              [] e.op = "spectrum" -> SpectrumFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})

Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
