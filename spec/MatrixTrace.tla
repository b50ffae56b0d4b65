------------------------------ MODULE MatrixTrace ------------------------------
(***************************************************************************)
(* svd, eigh and eig_biorthog (C23), in fixed-point arithmetic.            *)
(*                                                                         *)
(* full: a decomposition of A without tolerances, kind "svd" or "eigh":    *)
(*   A, U, d, V (U = V for eigh).  Complete and orthonormal factors which  *)
(*   satisfy the defining equation determine the whole spectrum, so what   *)
(*   is kept under tolerances is decided from A alone.                     *)
(* cut: the same array under tolerances: atol, rtol (NONE: not given),     *)
(*   pd: declared positive definite                                        *)
(* biorth: A, eigenvalues w, R, L and the side to be scaled                *)
(***************************************************************************)
EXTENDS Fixed

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
T == 100
NONE == -1

Start(case) == [seen |-> FALSE, d |-> <<>>]
Step(s, e) == IF e.e = "full" THEN [seen |-> TRUE, d |-> e.d] ELSE [s EXCEPT !.seen = TRUE]

Unit(M) == MNear(HMul(M, M), MId(Cols(M)), S \div T)
Desc(d) == \A i \in 1..(Len(d) - 1) : Ab(d[i]) + 1 >= Ab(d[i + 1])
Least(a, b) == IF a < b THEN a ELSE b
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Ab(a[i] - b[i]) <= S \div T + Ab(b[i]) \div T

(* triples (or pairs) which are part of a decomposition of A *)
Triples(e) == /\ Unit(e.U) /\ Unit(e.V)
              /\ MEq(MMul(e.A, e.V), ColScale(e.U, Real(e.d)), T)
              /\ (e.kind = "svd" => MEq(HMul(e.A, e.U), ColScale(e.V, Real(e.d)), T))
Shapes(e) == /\ \A i \in 1..Len(e.U) : Len(e.U[i]) = Len(e.d)
             /\ \A i \in 1..Len(e.V) : Len(e.V[i]) = Len(e.d)
             /\ Len(e.U) = Rows(e.A) /\ Len(e.V) = Cols(e.A)
Whole(e) == Least(Rows(e.A), Cols(e.A))

(* what the tolerances keep *)
LeastOf(d) == FoldLeft(Least, 0, d)
Kept(d, atol, rtol, pd) ==
    LET neg == -LeastOf(d)
        big == FoldLeft(LAMBDA a, b : Max2(a, Ab(b)), 0, d)
    IN SelectSeq(d, LAMBDA x : /\ (atol # NONE => Ab(x) > atol)
                               /\ (rtol # NONE => Ab(x) > FMul(rtol, big))
                               /\ (pd /\ neg > 0 => Ab(x) > neg))

Good(e) == IF ~Shapes(e) THEN {"Shapes"}
           ELSE If(Triples(e), "DefiningEquations")
                \cup If(Desc(e.d), "Descending")
                \cup If(e.kind = "svd" => \A i \in 1..Len(e.d) : e.d[i] >= 0, "NotNegative")

Fails(s, e) ==
    CASE e.e = "full" -> Good(e) \cup If(Len(e.d) = Whole(e), "Complete")
      [] e.e = "cut" ->
           LET want == Kept(s.d, e.atol, e.rtol, e.pd) IN
           IF Len(want) = 0 THEN If(Len(e.d) = 0, "KeepsExactly")
           ELSE Good(e) \cup If(Same(e.d, want), "KeepsExactly")
      [] e.e = "biorth" ->
           LET n == Rows(e.A) IN
           IF ~(Len(e.w) = n /\ Shape(e.R, n, n) /\ Shape(e.L, n, n)) THEN {"Shapes"}
           ELSE LET A == e.A IN
                If(MEq(MMul(A, e.R), ColScale(e.R, e.w), T), "RightEigenvectors")
                \cup If(MEq(HMul(A, e.L), ColScale(e.L, TLCEval([i \in 1..n |-> CConj(e.w[i])])), T), "LeftEigenvectors")
                \cup If(MNear(HMul(e.L, e.R), MId(n), S \div T), "BiOrthonormal")
                \cup (LET M == IF e.side = "left" THEN e.R ELSE e.L
                          G == HMul(M, M)
                      IN If(\A i \in 1..n : Ab(G[i][i][1] - S) <= S \div T, "OtherSideUnscaled"))
      [] e.e = "error" -> {"NoError"}
      [] OTHER -> {"Unknown"}
EndFails(s) == If(s.seen, "Result")

INSTANCE TraceRunner
===============================================================================
