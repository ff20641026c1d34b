------------------------------- MODULE Figure -------------------------------
(***************************************************************************)
(* Drawings.  A figure is a bag of lines and a bag of discs in the plane.  *)
(* It is drawn by putting one line per bond and one disc per thing shown;  *)
(* nothing is drawn twice and nothing is left out.                         *)
(***************************************************************************)
EXTENDS Cx, Integers, Sequences, FiniteSets, TLC

InPlane(x, plane) == <<R(x[plane[1]+1]), R(x[plane[2]+1])>>
Line(x) == {<<R(x[1]), R(x[2])>>, <<R(x[3]), R(x[4])>>}           \* without direction

(* The bag of the lines to be drawn. *)
BondLine(pos, plane, b) == {InPlane(pos[b[1]+1], plane), InPlane(pos[b[2]+1], plane)}
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Times(s, s[i]) = Times(t, s[i])

IsSkeleton(lines, pos, plane, bonds) ==
   SameBag([i \in DOMAIN lines |-> Line(lines[i])], [i \in DOMAIN bonds |-> BondLine(pos, plane, bonds[i])])

(* Discs of one colour or of two.  Discs at one place are told apart by what *)
(* they are: D is the sequence of discs wanted <<place, radius, class>>.     *)
At(m) == <<R(m.at[1]), R(m.at[2])>>
Disc(m, d, t) == At(m) = d[1] /\ RNear(m.r, d[2], RMul(t, RAdd("1e-12", RAbs(d[2]))))

(* A matching: a permutation of the discs wanted. *)
RECURSIVE Placed(_, _, _)
Placed(ms, ds, t) ==
   IF ms = <<>> THEN ds = <<>>
   ELSE \E j \in DOMAIN ds : /\ Disc(Head(ms), ds[j], t)
                             /\ Placed(Tail(ms), [i \in 1..(Len(ds)-1) |-> IF i < j THEN ds[i] ELSE ds[i+1]], t)

(* The colours: discs of one class have one colour, the classes differ.      *)
OneColour(ms) == \A i, j \in DOMAIN ms : ms[i].colour = ms[j].colour
Coloured(ms, c) == SelectSeq(ms, LAMBDA m : m.colour = c)
Colours(ms) == {ms[i].colour : i \in DOMAIN ms}
=============================================================================
