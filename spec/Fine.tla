--------------------------------- MODULE Fine ---------------------------------
(***************************************************************************)
(* Real numbers to 39 binary places in TLC's 32-bit integers: the tuple    *)
(* <<a, b, c, d>> stands for a + b/D + c/D^2 + d/D^3, with b, c, d in      *)
(* -D/2 .. D/2.  An array is a record [r, m]: r says whether it is real,   *)
(* m is a sequence of rows, of numbers (r) or of pairs <<re, im>> of them. *)
(*                                                                         *)
(* No product overflows as long as the entries of the factors are below    *)
(* 2^11 and sums have no more than 16 terms: the harness sends no others,  *)
(* and a product of larger arrays (it may arise on the way) is not formed  *)
(* but marked (huge), and settles nothing.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

D == 8192
Half == 4096
Ab(x) == IF x < 0 THEN -x ELSE x
Most(a, b) == IF a > b THEN a ELSE b

Zero5 == <<0, 0, 0, 0, 0>>
(* carries: five places to four, the last one rounded *)
Norm(p) ==
    LET x3 == p[4] + (p[5] + Half) \div D
        q2 == (x3 + Half) \div D
        x2 == p[3] + q2
        q1 == (x2 + Half) \div D
        x1 == p[2] + q1
        q0 == (x1 + Half) \div D
    IN <<p[1] + q0, x1 - q0 * D, x2 - q1 * D, x3 - q2 * D>>
(* acc + k x y for k = 1 or -1 *)
Acc(acc, k, x, y) ==
    <<acc[1] + k * (x[1] * y[1]),
      acc[2] + k * (x[1] * y[2] + x[2] * y[1]),
      acc[3] + k * (x[1] * y[3] + x[2] * y[2] + x[3] * y[1]),
      acc[4] + k * (x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1]),
      acc[5] + k * (x[2] * y[4] + x[3] * y[3] + x[4] * y[2])>>
Plus(x, y) == Norm(<<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4], 0>>)
Neg(x) == <<-x[1], -x[2], -x[3], -x[4]>>
Zero == <<0, 0, 0, 0>>
One == <<1, 0, 0, 0>>

Rows(A) == Len(A.m)
Cols(A) == IF Len(A.m) = 0 THEN 0 ELSE Len(A.m[1])
Each(n, m, F(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> F(i, j)])])
Complex(A) == IF ~A.r THEN A ELSE [r |-> FALSE, m |-> Each(Rows(A), Cols(A), LAMBDA i, j : <<A.m[i][j], Zero>>)]
Herm(A) == [r |-> A.r, m |-> Each(Cols(A), Rows(A), LAMBDA i, j :
                                 IF A.r THEN A.m[j][i] ELSE <<A.m[j][i][1], Neg(A.m[j][i][2])>>)]
Id(n) == [r |-> TRUE, m |-> Each(n, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)]

(* size of an array: a bound on its entries *)
Size1(A, z) == IF A.r THEN Ab(z[1]) + 1 ELSE Most(Ab(z[1][1]), Ab(z[2][1])) + 1
Size(A) == FoldLeft(Most, 1, [i \in DOMAIN A.m |-> FoldLeft(Most, 1, [j \in DOMAIN A.m[i] |-> Size1(A, A.m[i][j])])])
RECURSIVE DotR(_, _, _, _, _, _), DotRe(_, _, _, _, _, _), DotIm(_, _, _, _, _, _)
DotR(A, B, i, j, k, acc) == IF k = 0 THEN Norm(acc) ELSE DotR(A, B, i, j, k - 1, TLCEval(Acc(acc, 1, A[i][k], B[k][j])))
DotRe(A, B, i, j, k, acc) ==
    IF k = 0 THEN Norm(acc)
    ELSE DotRe(A, B, i, j, k - 1, TLCEval(Acc(Acc(acc, 1, A[i][k][1], B[k][j][1]), -1, A[i][k][2], B[k][j][2])))
DotIm(A, B, i, j, k, acc) ==
    IF k = 0 THEN Norm(acc)
    ELSE DotIm(A, B, i, j, k - 1, TLCEval(Acc(Acc(acc, 1, A[i][k][1], B[k][j][2]), 1, A[i][k][2], B[k][j][1])))
Huge == [r |-> TRUE, m |-> <<>>, huge |-> TRUE]
IsHuge(A) == "huge" \in DOMAIN A
Mul(A, B) ==
    IF IsHuge(A) \/ IsHuge(B) \/ Size(A) > 2047 \/ Size(B) > 2047 \/ Cols(A) # Rows(B) THEN Huge
    ELSE IF A.r /\ B.r
    THEN [r |-> TRUE, m |-> Each(Rows(A), Cols(B), LAMBDA i, j : DotR(A.m, B.m, i, j, Rows(B), Zero5))]
    ELSE LET X == Complex(A).m Y == Complex(B).m n == Rows(B)
         IN [r |-> FALSE, m |-> Each(Rows(A), Cols(B), LAMBDA i, j :
                                <<DotRe(X, Y, i, j, n, Zero5), DotIm(X, Y, i, j, n, Zero5)>>)]
Add(A, B) ==
    IF A.r /\ B.r THEN [r |-> TRUE, m |-> Each(Rows(A), Cols(A), LAMBDA i, j : Plus(A.m[i][j], B.m[i][j]))]
    ELSE LET X == Complex(A).m Y == Complex(B).m
         IN [r |-> FALSE, m |-> Each(Rows(A), Cols(A), LAMBDA i, j :
                                <<Plus(X[i][j][1], Y[i][j][1]), Plus(X[i][j][2], Y[i][j][2])>>)]
Minus(A) == [r |-> A.r, m |-> Each(Rows(A), Cols(A), LAMBDA i, j :
                                  IF A.r THEN Neg(A.m[i][j]) ELSE <<Neg(A.m[i][j][1]), Neg(A.m[i][j][2])>>)]
(* the product of a sequence of arrays *)
RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 1 THEN s[1] ELSE Prod(<<TLCEval(Mul(s[1], s[2]))>> \o SubSeq(s, 3, Len(s)))

(* |x| <= t / 2^39 *)
Tiny(x, t) == x[1] = 0 /\ Ab(x[2]) <= 15 /\ Ab(x[2] * 67108864 + x[3] * D + x[4]) <= t
(* A = B up to 2^-P of the size s *)
CloseTo(A, B, s, P) ==
    IsHuge(A) \/ IsHuge(B) \/
    /\ Rows(A) = Rows(B) /\ Cols(A) = Cols(B)
    /\ LET R == Add(A, Minus(B)) t == IF s > 65536 THEN 1000000000 ELSE s * (2 ^ (39 - P)) IN
       \A i \in DOMAIN R.m : \A j \in DOMAIN R.m[i] :
           IF R.r THEN Tiny(R.m[i][j], t) ELSE Tiny(R.m[i][j][1], t) /\ Tiny(R.m[i][j][2], t)
===============================================================================
