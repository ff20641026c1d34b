------------------------------ MODULE RealArith ------------------------------
(***************************************************************************)
(* Real arithmetic for TLC: fixed point numbers with 256 binary digits     *)
(* after the point.  The operators are evaluated by                        *)
(* spec/java/edpytspec/Overrides.java; the definitions here only give      *)
(* their arities and meanings.  An argument may be an integer, a string    *)
(* (a C99 hexadecimal double, taken exactly, a decimal or "p/q"), or a     *)
(* number made by another operator.  The value <<>> stands for a number    *)
(* that is not there (NaN, infinity, x/0): it propagates, and no           *)
(* comparison with it is true, so that a clause can never hold of it.      *)
(***************************************************************************)
LOCAL Native == CHOOSE x : x \notin {TRUE, FALSE}

R(x)         == Native   \* the number x denotes
ROk(x)       == Native   \* is it a finite number?
RAdd(x,y)    == Native
RSub(x,y)    == Native
RMul(x,y)    == Native
RDiv(x,y)    == Native
RNeg(x)      == Native
RAbs(x)      == Native
RLe(x,y)     == Native   \* x <= y
RLt(x,y)     == Native   \* x < y
RNear(x,y,t) == Native   \* |x-y| <= t
RFar(x,y,t)  == Native   \* how many entries of two sequences are further apart than t (-1: lengths)
RSum(s)      == Native
RDot(s,t)    == Native
RVec(s)      == Native   \* [i |-> R(s[i])]
RMat(m)      == Native   \* rows of reals
RTranspose(m)== Native
RMatVec(m,v) == Native
RMatMul(a,b) == Native
RInertia(m,s)== Native   \* number of eigenvalues of the symmetric m below s (-1: s is one)
RExp(x)      == Native
RLn(x)       == Native
RSqrt(x)     == Native
RPi          == Native
RFloor(x)    == Native   \* integer part, as an integer
RShow(x)     == Native   \* as a decimal string, for reports

RMaxOf(x,y) == IF RLe(x,y) THEN y ELSE x
RMinOf(x,y) == IF RLe(x,y) THEN x ELSE y
=============================================================================
