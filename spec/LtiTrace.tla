------------------------------- MODULE LtiTrace -------------------------------
(***************************************************************************)
(* Simulation and impulse response (C21) as behaviours of the system.      *)
(*                                                                         *)
(* begin: fn "lsim" or "impulse"; A, B, C (Gaussian integers; the state    *)
(*   array is A/q), x0 (lsim), rows: the number of rows expected (-1: not  *)
(*   specified); err: the error raised ("" if none); shape of the result   *)
(* row: one input row u with the corresponding output row y, or one        *)
(*   impulse response sample (array y); numerators over q^n                *)
(***************************************************************************)
EXTENDS LtiSys

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}

Start(case) == [fn |-> ""]
Step(s, e) ==
    IF e.e = "begin"
    THEN [fn |-> e.fn, sys |-> [A |-> e.A, B |-> e.B, C |-> e.C, q |-> e.q], n |-> 0,
          x |-> IF e.fn = "lsim" THEN e.x0 ELSE e.B, rows |-> e.rows, err |-> e.err]
    ELSE IF s.fn = "lsim"
    THEN [s EXCEPT !.n = @ + 1, !.x = Advance(s.sys, s.n, s.x, e.u)]
    ELSE [s EXCEPT !.n = @ + 1, !.x = MMul(s.sys.A, s.x)]

Fails(s, e) ==
    IF e.e = "begin"
    THEN LET m == Len(e.B[1]) p == Len(e.C) IN
         If(e.err = "", "NoError")
         \cup (IF e.err # "" THEN {} ELSE
               IF e.fn = "lsim" THEN If(e.shape = <<e.rows, p>>, "OneRowPerInput")
               ELSE If(/\ Len(e.shape) = 3 /\ e.shape[2] = p /\ e.shape[3] = m
                       /\ e.rows >= 0 => e.shape[1] = e.rows, "RequestedSteps"))
    ELSE IF s.fn = "lsim"
    THEN If(e.y = Output(s.sys, s.x), "StateRecursion")
    ELSE If(e.y = MMul(s.sys.C, s.x), "MarkovParameters")
EndFails(s) == IF s.fn = "" THEN {"Result"} ELSE IF s.err = "" /\ s.rows >= 0 /\ s.n # s.rows THEN {"RequestedSteps"} ELSE {}

INSTANCE TraceRunner
==============================================================================
