------------------------------ MODULE TrFigure ------------------------------
(* Recorded drawings (P41).                                                 *)
EXTENDS Observe, Green, Figure

VARIABLES l, bad

Frame(e) == << <<"bonds", IsSkeleton(e.lines, e.pos, e.plane, e.bonds)>>,
               <<"axes", e.axes>>, <<"kept", e.kept>> >>
Place(e, i) == InPlane(e.pos[e.chosen[i]+1], e.plane)

SkeletonFails(e) == Failing(Frame(e) \o << <<"nothing-else", e.marks = <<>> >> >>)

(* An orbital: area by weight, colour by sign. *)
OrbitalFails(e) ==
   LET want == [i \in DOMAIN e.v |-> <<Place(e, i), RMul(e.scale, RMul(e.v[i], e.v[i]))>>]
       pos  == {i \in DOMAIN e.v : RLt(0, e.v[i])}
       neg  == {i \in DOMAIN e.v : RLt(e.v[i], 0)}
       of(S) == {c \in Colours(e.marks) : \E i \in S, j \in DOMAIN e.marks : e.marks[j].colour = c /\ At(e.marks[j]) = Place(e, i)}
   IN Failing(Frame(e) \o
        << <<"one-disc-per-site", Placed(e.marks, want, "1e-12")>>,
           <<"sign-by-colour", Cardinality(of(pos)) <= 1 /\ Cardinality(of(neg)) <= 1 /\ of(pos) \cap of(neg) = {}>>,
           <<"known-colours", of(pos) \subseteq {"r"} /\ of(neg) \subseteq {"b"}>> >>)

(* A spin density: on each site a disc for each spin, by its occupation. *)
DensityFails(e) ==
   LET n  == e.n
       o(s) == TLCEval([i \in 1..n |-> Occ(e.su, e.sd, e.v, i-1, s)])
       ou == o(0)
       od == o(1)
       rs == RSum([j \in DOMAIN e.marks |-> e.marks[j].r])
       os == RAdd(RSum(ou), RSum(od))
       f  == IF RLt(os, "1e-9") THEN R(1) ELSE RDiv(rs, os)
       want(x) == [i \in 1..n |-> <<Place(e, i), RMul(f, x[i])>>]
   IN Failing(Frame(e) \o
        << <<"scale", RLt(0, f)>>,
           <<"up", Placed(Coloured(e.marks, "black"), want(ou), "1e-9")>>,
           <<"down", Placed(Coloured(e.marks, "gray"), want(od), "1e-9")>>,
           <<"one-disc-per-site-and-spin", Len(e.marks) = 2 * n>> >>)

Fails(e) == CASE e.op = "skeleton" -> SkeletonFails(e)
              [] e.op = "orbital" -> OrbitalFails(e)
              [] e.op = "density" -> DensityFails(e)
              [] e.op = "case" -> {}
              [] OTHER -> Broken(e) \cup (IF e.op \in {"raised", "died"} THEN {} ELSE {"unknown-event"})

Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Log)
        /\ bad' = Note(bad, l, Fails(Log[l]))
        /\ l' = l + 1
        /\ Publish(bad', l)
=============================================================================
