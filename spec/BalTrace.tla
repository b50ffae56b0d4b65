------------------------------- MODULE BalTrace -------------------------------
(***************************************************************************)
(* Balanced truncation of stable discrete-time systems (C26), in           *)
(* fixed-point arithmetic.                                                 *)
(*                                                                         *)
(* begin: the system A, B, C; hsv: its Hankel singular values as far as    *)
(*   they are known (<<>>: unknown); least: the order of a minimal         *)
(*   realization, without states of very small values; kept: with them;   *)
(*   steps: the samples compared                                           *)
(* model: order (NONE: not given), asked (were singular values asked for), *)
(*   A, B, C, sv (<<>>: not returned), err.  The first one is complete and *)
(*   comes with singular values: the Lyapunov equations, the impulse       *)
(*   response and the order of the values determine it up to the phases of *)
(*   its states, and it says what every later one has to be.               *)
(***************************************************************************)
EXTENDS Fixed

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
T == 60
NONE == -1
Least(a, b) == IF a < b THEN a ELSE b

RECURSIVE Response(_, _, _, _)
Response(A, X, C, n) == IF n = 0 THEN <<>> ELSE <<MMul(C, X)>> \o Response(A, MMul(A, X), C, n - 1)
First(M, n, m) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> M[i][j]])])

Sized(e, b, n) == Shape(e.A, n, n) /\ Shape(e.B, n, Cols(b.B)) /\ Shape(e.C, Rows(b.C), n)

Start(case) == [seen |-> FALSE, full |-> FALSE]
Step(s, e) ==
    CASE e.e = "begin" -> [seen |-> FALSE, full |-> FALSE, b |-> e]
      [] e.e = "model" /\ ~s.full /\ e.err = "" /\ Len(e.sv) > 0 /\ Sized(e, s.b, Len(e.sv)) ->
           [seen |-> TRUE, full |-> TRUE, b |-> s.b, A |-> e.A, B |-> e.B, C |-> e.C, sv |-> e.sv]
      [] OTHER -> [s EXCEPT !.seen = TRUE]

SameVals(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Ab(a[i] - b[i]) <= S \div T + b[i] \div T
Moduli(M, N) == \A i \in DOMAIN N : \A j \in DOMAIN N[i] :
    Ab(Mag2(M[i][j]) - Mag2(N[i][j])) <= S \div 30 + Mag2(N[i][j]) \div 15
Responds(e, A, B, C, k) ==
    LET want == Response(A, B, C, k) got == Response(e.A, e.B, e.C, k)
    IN \A i \in 1..k : MEq(got[i], want[i], 30)

(* a state which cannot be reached or observed may be left in with a value of *)
(* the size of rounding errors: its row and column are noise                  *)
Full(s, e) ==
    LET n == Len(e.sv) least == s.b.least IN
    IF ~(n >= s.b.kept /\ n <= Rows(s.b.A) /\ Sized(e, s.b, n) /\ \A i \in (least + 1)..n : e.sv[i] \in 0..1) THEN {"MaximalOrder"}
    ELSE IF n > least THEN If(Responds(e, s.b.A, s.b.B, s.b.C, s.b.steps), "ImpulseResponse")
    ELSE LET Sig == Real(e.sv)
             D == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN Sig[i] ELSE C0])])
         IN If(\A i \in 1..n : e.sv[i] > 0, "Positive")
            \cup If(\A i \in 1..(n - 1) : e.sv[i] + 1 >= e.sv[i + 1], "Descending")
            \cup If(s.b.hsv # <<>> => SameVals(e.sv, s.b.hsv), "HankelSingularValues")
            \cup If(MEq(MAdd(MMul(ColScale(e.A, Sig), Herm(e.A)), MMul(e.B, Herm(e.B))), D, T), "ControllabilityGramian")
            \cup If(MEq(MAdd(HMul(e.A, RowScale(e.A, e.sv)), HMul(e.C, e.C)), D, T), "ObservabilityGramian")
            \cup If(Responds(e, s.b.A, s.b.B, s.b.C, s.b.steps), "ImpulseResponse")

(* later models against the complete one *)
Cut(s, e) ==
    LET n == Len(s.sv) k == IF e.order = NONE THEN n ELSE Least(n, e.order)
        m == Cols(s.b.B) p == Rows(s.b.C) IN
    IF ~Sized(e, s.b, k) THEN {"ExactlyThatManyStates"}
    ELSE IF n > s.b.least /\ k > s.b.least THEN {}
    ELSE LET A == First(s.A, k, k) B == First(s.B, k, m) C == First(s.C, p, k) IN
         If(Moduli(e.A, A) /\ Moduli(e.B, B) /\ Moduli(e.C, C), "LeadingStates")
         \cup If(Responds(e, A, B, C, s.b.steps), "LeadingStates")
         \cup If(IF e.asked THEN SameVals(e.sv, s.sv) ELSE Len(e.sv) = 0, "SingularValues")

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "model" ->
           IF e.err # "" THEN {"NoError"} ELSE IF s.seen /\ ~s.full THEN {} ELSE IF s.full THEN Cut(s, e) ELSE Full(s, e)
      [] e.e = "error" -> {"NoError"}
      [] OTHER -> {"Unknown"}
EndFails(s) == If(s.seen, "Result")

INSTANCE TraceRunner
===============================================================================
