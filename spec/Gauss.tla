-------------------------------- MODULE Gauss --------------------------------
(***************************************************************************)
(* Exact arithmetic on Gaussian integers <<re, im>>, vectors and arrays of *)
(* them (sequences; an array is a sequence of rows).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

C0 == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a)   == <<a[1], -a[2]>>
CScale(k, a) == <<k * a[1], k * a[2]>>

CSum(s) == FoldLeft(CAdd, C0, s)

(* vectors *)
VAdd(u, v) == [i \in 1..Len(u) |-> CAdd(u[i], v[i])]
VSub(u, v) == [i \in 1..Len(u) |-> CSub(u[i], v[i])]
VScale(k, u) == [i \in 1..Len(u) |-> CMul(k, u[i])]
VZero(n) == [i \in 1..n |-> C0]
Dot(u, v) == CSum([i \in 1..Len(u) |-> CMul(CConj(u[i]), v[i])])

(* the sum over k of coef[k] * vecs[k] *)
Comb(coef, vecs) ==
    [i \in 1..Len(vecs[1]) |-> CSum([k \in 1..Len(vecs) |-> CMul(coef[k], vecs[k][i])])]

(* arrays *)
Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
MMul(A, B) == TLCEval([i \in 1..Rows(A) |-> TLCEval([j \in 1..Cols(B) |->
                 CSum([k \in 1..Cols(A) |-> CMul(A[i][k], B[k][j])])])])
MAdd(A, B) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CAdd(A[i][j], B[i][j])]])
MSub(A, B) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CSub(A[i][j], B[i][j])]])
MScale(k, A) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CMul(k, A[i][j])]])
Herm(A) == TLCEval([j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> CConj(A[i][j])]])
Transp(A) == TLCEval([j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]])
MZero(n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |-> C0]])
MId(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE C0]])
ColsOf(A, sel) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Len(sel) |-> A[i][sel[j]]]])
Col(A, j) == [i \in 1..Rows(A) |-> A[i][j]]
DiagM(d) == TLCEval([i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE C0]])
=============================================================================
