------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices in compressed rows and their products. *)
EXTENDS Cx

(* [m, n, indptr, indices, data] *)
Dense(A) == TLCEval([i \in 1..A.m |-> [j \in 1..A.n |->
   RSum([p \in 1..(A.indptr[i+1] - A.indptr[i]) |->
      LET q == A.indptr[i] + p IN IF A.indices[q] = j - 1 THEN R(A.data[q]) ELSE R(0)])]])

RowDot(A, i, w, at(_)) ==
   RSum([p \in 1..(A.indptr[i+1] - A.indptr[i]) |->
      LET q == A.indptr[i] + p IN RMul(A.data[q], w[at(A.indices[q])])])

(* y + (1 (x) A) w : blocks of the spin-up index *)
UpProduct(A, w, y) ==
   LET nup == A.m
   IN TLCEval([k \in DOMAIN w |-> LET b == ((k-1) \div nup) * nup
                                       i == ((k-1) % nup) + 1
                                   IN RAdd(y[k], RowDot(A, i, w, LAMBDA c : b + c + 1))])
(* y + (A (x) 1) w : the spin-down index is the slow one *)
DwProduct(A, w, y) ==
   LET nup == Len(w) \div A.m
   IN TLCEval([k \in DOMAIN w |-> LET i == ((k-1) \div nup) + 1
                                       s == ((k-1) % nup)
                                   IN RAdd(y[k], RowDot(A, i, w, LAMBDA c : c * nup + s + 1))])
FullProduct(A, w, y) == TLCEval([i \in 1..A.m |-> RAdd(y[i], RowDot(A, i, w, LAMBDA c : c + 1))])

Product(kind, A, w, y) == IF kind = "up" THEN UpProduct(A, w, y)
                          ELSE IF kind = "dw" THEN DwProduct(A, w, y) ELSE FullProduct(A, w, y)

(* A scale for the rounding of the products. *)
Size(s) == RAdd(1, RMaxSeq([i \in DOMAIN s |-> RAbs(s[i])]))
Tol(A, w, y) == RMul("1e-12", RMul(RAdd(1, RMul(Size(A.data), Size(w))), RMul(A.m + 1, Size(y))))

(* A row of A extended to the whole space, from the parts of an operator.   *)
Part(p, w, y) == IF p.kind = "diag" THEN TLCEval([k \in DOMAIN w |-> RAdd(y[k], RMul(p.diag[k], w[k]))])
                 ELSE Product(p.kind, p.A, w, y)
=============================================================================
