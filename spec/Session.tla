------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session with one eigenspace.  Its data are the model, the eigenspace  *)
(* and the arguments the caller keeps; only screening replaces the         *)
(* eigenspace, and it goes one way.  A query reads the data and leaves it; *)
(* a function built from it (a Green function) belongs to the data it was  *)
(* built from, and calling it later answers as it would have then.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* The versions of the eigenspace, by what is still in it: as built, after  *)
(* the mild, and after the hard cutoff.                                    *)
Versions == {"built", "mild", "hard"}
Rank(v) == CASE v = "built" -> 0 [] v = "mild" -> 1 [] v = "hard" -> 2
Screened(v, c) == IF Rank(c) > Rank(v) THEN c ELSE v

(* Held functions: function from names to the version built from. *)
NotHeld == "none"
=============================================================================
