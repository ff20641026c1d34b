----------------------------- MODULE Transpose -----------------------------
(***************************************************************************)
(* A vector of a sector is a matrix: row = spin-down, column = spin-up     *)
(* position.  N x N over P processes, m = N/P rows (or columns) each.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* Entry (i, j), 0-based, of the block of process p (0-based) when rows are *)
(* distributed, and when columns are: where it comes from in the matrix.    *)
RowEntry(N, m, p, i, j) == <<p * m + i, j>>
ColEntry(N, m, p, i, j) == <<i, p * m + j>>
RowBlock(G(_,_), N, m, p) == [i \in 1..m |-> [j \in 1..N |-> G(p * m + i - 1, j - 1)]]
ColBlock(G(_,_), N, m, p) == [i \in 1..N |-> [j \in 1..m |-> G(i - 1, p * m + j - 1)]]

(* What process p sends process q so that the columns come together: its    *)
(* rows, q's columns; and back: q's rows of p's columns.                    *)
ToCols(b, m, q) == [i \in 1..m |-> [j \in 1..m |-> b[i][q * m + j]]]
ToRows(b, m, q) == [i \in 1..m |-> [j \in 1..m |-> b[q * m + i][j]]]
(* Putting the pieces (piece q from process q) together. *)
JoinCols(s, m, P) == [i \in 1..(m*P) |-> [j \in 1..m |-> s[((i-1) \div m) + 1][((i-1) % m) + 1][j]]]
JoinRows(s, m, P) == [i \in 1..m |-> [j \in 1..(m*P) |-> s[((j-1) \div m) + 1][i][((j-1) % m) + 1]]]
=============================================================================
