-------------------------------- MODULE Fixed --------------------------------
(***************************************************************************)
(* Fixed-point arithmetic for TLC's 32-bit integers: the integer n stands  *)
(* for n / S.  Every operation saturates at BIG instead of overflowing, so *)
(* a wild value makes a comparison fail rather than the evaluation.        *)
(* Complex numbers are pairs <<re, im>>; arrays are sequences of rows of   *)
(* complex numbers.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

S == 8192
BIG == 1000000000
Clamp(x) == IF x > BIG THEN BIG ELSE IF x < -BIG THEN -BIG ELSE x
Ab(x) == IF x < 0 THEN -x ELSE x

(* (a * b) / S for a >= b >= 0 *)
PMul(a, b) ==
    IF b <= 262143
    THEN LET ah == a \div S IN
         IF ah > 0 /\ b > BIG \div ah THEN BIG
         ELSE ah * b + ((a % S) * b) \div S
    ELSE LET x == a \div 128  y == b \div 64 IN IF x > BIG \div y THEN BIG ELSE x * y
FMul(a, b) == LET x == Ab(a)  y == Ab(b)
                  p == Clamp(IF x >= y THEN PMul(x, y) ELSE PMul(y, x))
              IN IF (a < 0) = (b < 0) THEN p ELSE -p
(* a / b for b > 0, 0 <= a *)
PDiv(a, b) == LET q == a \div b  r == (a % b) IN
    IF q >= 100000 THEN BIG
    ELSE IF b < 262144 THEN q * S + (r * S) \div b
    ELSE LET r1 == r \div 128 b1 == b \div 128 IN Clamp(q * S + (IF b1 >= 262144 THEN ((r1 \div 64) * S) \div (b1 \div 64) ELSE (r1 * S) \div b1))
FDiv(a, b) == IF b = 0 THEN BIG ELSE LET p == PDiv(Ab(a), Ab(b)) IN IF (a < 0) = (b < 0) THEN p ELSE -p

RECURSIVE Root(_, _, _)
Root(a, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF FMul(m, m) <= a THEN Root(a, m, hi) ELSE Root(a, lo, m)
FSqrt(a) == IF a <= 0 THEN 0 ELSE Root(a, 0, 4000000)

C0 == <<0, 0>>
CAdd(a, b) == <<Clamp(a[1] + b[1]), Clamp(a[2] + b[2])>>
CSub(a, b) == <<Clamp(a[1] - b[1]), Clamp(a[2] - b[2])>>
CMul(a, b) == <<Clamp(FMul(a[1], b[1]) - FMul(a[2], b[2])), Clamp(FMul(a[1], b[2]) + FMul(a[2], b[1]))>>
CConj(a) == <<a[1], -a[2]>>
CScale(k, a) == <<FMul(k, a[1]), FMul(k, a[2])>>       \* k real
CDivR(a, k) == <<FDiv(a[1], k), FDiv(a[2], k)>>
Mag2(a) == Clamp(FMul(a[1], a[1]) + FMul(a[2], a[2]))
Mx(a) == IF Ab(a[1]) > Ab(a[2]) THEN Ab(a[1]) ELSE Ab(a[2])

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Shape(A, n, m) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = m
Max2(a, b) == IF a > b THEN a ELSE b
MaxAbs(A) == FoldLeft(Max2, 0, [i \in DOMAIN A |-> FoldLeft(Max2, 0, [j \in DOMAIN A[i] |-> Mx(A[i][j])])])
Small(A, bound) == \A i \in DOMAIN A : \A j \in DOMAIN A[i] : Mx(A[i][j]) <= bound

RECURSIVE DotAt(_, _, _, _, _, _)
DotAt(A, B, i, j, k, acc) == IF k = 0 THEN acc ELSE DotAt(A, B, i, j, k - 1, CAdd(acc, CMul(A[i][k], B[k][j])))
MMul(A, B) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(B) |-> DotAt(A, B, i, j, Rows(B), C0)])])
RECURSIVE HDotAt(_, _, _, _, _, _)
HDotAt(A, B, i, j, k, acc) == IF k = 0 THEN acc ELSE HDotAt(A, B, i, j, k - 1, CAdd(acc, CMul(CConj(A[k][i]), B[k][j])))
(* A* B *)
HMul(A, B) == TLCEval([i \in 1..Cols(A) |-> TLCEval([j \in 1..Cols(B) |-> HDotAt(A, B, i, j, Rows(A), C0)])])
MAdd(A, B) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(A) |-> CAdd(A[i][j], B[i][j])])])
MSub(A, B) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(A) |-> CSub(A[i][j], B[i][j])])])
Herm(A) == TLCEval([j \in 1..Cols(A) |-> TLCEval([i \in 1..Rows(A) |-> CConj(A[i][j])])])
MId(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN <<S, 0>> ELSE C0])])
Real(d) == TLCEval([i \in 1..Len(d) |-> <<d[i], 0>>])
(* A diag(d), d complex *)
ColScale(A, d) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(A) |-> CMul(A[i][j], d[j])])])
(* diag(d)^-1 A, d real *)
RowDiv(A, d) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(A) |-> CDivR(A[i][j], d[i])])])
RowScale(A, d) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(A) |-> CScale(d[i], A[i][j])])])
ColsOf(A, sel) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Len(sel) |-> A[i][sel[j]]])])

(* |a - b| <= tol entry by entry (tol in units of 1/S) *)
CNear(a, b, tol) == Ab(a[1] - b[1]) <= tol /\ Ab(a[2] - b[2]) <= tol
MNear(A, B, tol) == /\ Len(A) = Len(B)
                    /\ \A i \in DOMAIN A : /\ Len(A[i]) = Len(B[i])
                                           /\ \A j \in DOMAIN A[i] : CNear(A[i][j], B[i][j], tol)
(* about 1/t of the largest entry, and never less than 1/t *)
Tol(A, t) == S \div t + MaxAbs(A) \div t
MEq(A, B, t) == MNear(A, B, Tol(B, t))
=============================================================================
