------------------------------- MODULE OkidTrace -------------------------------
(***************************************************************************)
(* Observer/Kalman identification (C19): the Markov parameters of the      *)
(* system which produced the data come back.                               *)
(*                                                                         *)
(* okid: A, B, C, D: the system (fixed point); k: number of parameters     *)
(*   asked for; samples of the inputs and outputs; shape, M: the result    *)
(***************************************************************************)
EXTENDS Fixed

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}

RECURSIVE Response(_, _, _, _)
Response(A, X, C, n) == IF n = 0 THEN <<>> ELSE <<MMul(C, X)>> \o Response(A, MMul(A, X), C, n - 1)
Expected(e) == IF e.k = 0 THEN <<>> ELSE <<e.D>> \o Response(e.A, e.B, e.C, e.k - 1)

Start(case) == 0
Step(s, e) == s + 1
Fails(s, e) ==
    IF e.nu # e.ny THEN If(e.err # "", "MismatchRejected")
    ELSE If(e.err = "", "Accepted")
         \cup (IF e.err # "" THEN {} ELSE
               LET M == Expected(e) top == FoldLeft(Max2, 0, [i \in DOMAIN M |-> MaxAbs(M[i])])
                   tol == S \div 200 + top \div 200 IN
               IF e.shape # <<e.k, Len(e.D), Len(e.D[1])>> THEN {"TimeOutputInput"}
               ELSE If(MNear(e.M[1], M[1], tol), "DirectTerm")
                    \cup If(\A i \in 2..e.k : MNear(e.M[i], M[i], tol), "MarkovParameters"))
EndFails(s) == If(s > 0, "Result")

INSTANCE TraceRunner
===============================================================================
