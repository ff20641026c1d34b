------------------------------- MODULE MCLine -------------------------------
(***************************************************************************)
(* Minimisation along a line: bracketing (phase "bracket") from two points *)
(* and shrinking of the bracket (phase "shrink"), over every function on   *)
(* a small grid and every admissible choice of trial points.  What the     *)
(* recorded runs are checked for (TrFit) is what is invariant here.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, V          \* grid 0..N, values 0..V
VARIABLES f, phase, a, b, c, f0, seen

vars == <<f, phase, a, b, c, f0, seen>>
Grid == 0..N
Top == V + 1                      \* beyond the grid the function is higher than anywhere on it
F(x) == IF x \in Grid THEN f[x] ELSE Top
Toward(x, y) == IF y > x THEN {x+1, x+2, x+3} ELSE {x-1, x-2, x-3}

Init == /\ f \in [Grid -> 0..V]
        /\ \E x \in Grid, y \in Grid : /\ x # y
              /\ f0 = F(x)
              /\ a = (IF F(y) > F(x) THEN y ELSE x) /\ b = (IF F(y) > F(x) THEN x ELSE y)
              /\ c \in {(IF F(y) > F(x) THEN x ELSE y) + k : k \in (IF (x < y) = (F(y) <= F(x)) THEN {1, 2} ELSE {-1, -2})}
        /\ phase = "bracket" /\ seen = {}

(* While the middle is above the far end: a trial point between b and c     *)
(* ends the search when it brackets; otherwise the points move on.         *)
Expand == /\ phase = "bracket" /\ F(b) > F(c)
          /\ \/ \E u \in Grid : /\ ((b < u /\ u < c) \/ (c < u /\ u < b))
                                /\ \/ F(u) < F(c) /\ a' = b /\ b' = u /\ c' = c /\ phase' = "bracketed"
                                   \/ F(u) > F(b) /\ a' = a /\ b' = b /\ c' = u /\ phase' = "bracketed"
             \/ \E u \in Toward(c, c + (c - b)) : a' = b /\ b' = c /\ c' = u /\ phase' = phase
          /\ UNCHANGED <<f, f0, seen>>
Bracketed == phase = "bracket" /\ F(b) <= F(c) /\ phase' = "bracketed" /\ UNCHANGED <<f, a, b, c, f0, seen>>
(* b becomes the best point x, [a, c] the interval in ascending order. *)
Start == /\ phase = "bracketed" /\ phase' = "shrink"
         /\ a' = (IF a < c THEN a ELSE c) /\ c' = (IF a < c THEN c ELSE a)
         /\ seen' = {b} /\ UNCHANGED <<f, b, f0>>
Shrink == /\ phase = "shrink"
          /\ \E u \in (a+1)..(c-1) : /\ u # b /\ seen' = seen \cup {u}
                /\ IF F(u) <= F(b)
                   THEN b' = u /\ (IF u >= b THEN a' = b /\ c' = c ELSE c' = b /\ a' = a)
                   ELSE b' = b /\ (IF u < b THEN a' = u /\ c' = c ELSE c' = u /\ a' = a)
          /\ UNCHANGED <<f, f0, phase>>
Next == Expand \/ Bracketed \/ Start \/ Shrink
Spec == Init /\ [][Next]_vars

Within(x) == x \in -(3*N+9)..(4*N+9)
InOrder == (a < b /\ b < c) \/ (c < b /\ b < a)
Middle == phase = "bracketed" => F(b) <= F(a) /\ F(b) <= F(c)
Descends == F(b) <= f0 \/ (phase = "bracket" /\ F(a) <= f0)
Ordered == phase \in {"bracketed", "shrink"} => InOrder
Lowest == phase = "shrink" => \A u \in seen : F(b) <= F(u)
StaysBracketed == phase = "shrink" => F(b) <= F(a) /\ F(b) <= F(c)
(* for a function with one valley the valley stays inside *)
Valley == \E m \in Grid : (\A x, y \in Grid : (x < y /\ y <= m) => f[x] > f[y]) /\ (\A x, y \in Grid : (m <= x /\ x < y) => f[x] < f[y])
ValleyInside == (phase = "shrink" /\ Valley) => \E m \in Grid : a <= m /\ m <= c /\ \A x \in Grid : f[m] <= f[x]
Bounded == Within(a) /\ Within(b) /\ Within(c)
=============================================================================
