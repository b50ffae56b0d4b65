------------------------------- MODULE PipeTrace -------------------------------
(***************************************************************************)
(* Every route from data to a model leads back to the system the data came *)
(* from (C30), in fixed-point arithmetic.                                  *)
(*                                                                         *)
(* begin: the minimal system A, B, C; steps: the samples compared          *)
(* model: route, order, A, B, C, err: a model of that order, obtained from *)
(*   simulated data of the system by one of the routes.  At the order of   *)
(*   the system it has the impulse response of the system; below it every  *)
(*   route gives the model the first one gave, in other coordinates.       *)
(* eigs: route, vals, err: eigenvalues identified from states of the       *)
(*   system; their power sums are the traces of the powers of A            *)
(***************************************************************************)
EXTENDS Fixed

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}

RECURSIVE Response(_, _, _, _)
Response(A, X, C, n) == IF n = 0 THEN <<>> ELSE <<MMul(C, X)>> \o Response(A, MMul(A, X), C, n - 1)
Same(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : MEq(x[i], y[i], 25)

Trace(A) == FoldLeft(CAdd, C0, [i \in 1..Rows(A) |-> A[i][i]])
RECURSIVE Traces(_, _, _)
Traces(A, X, n) == IF n = 0 THEN <<>> ELSE <<Trace(X)>> \o Traces(A, MMul(A, X), n - 1)
RECURSIVE PowerSums(_, _, _)
PowerSums(v, w, n) ==
    IF n = 0 THEN <<>>
    ELSE <<FoldLeft(CAdd, C0, w)>> \o PowerSums(v, TLCEval([i \in 1..Len(v) |-> CMul(v[i], w[i])]), n - 1)

Sized(s, e) == Shape(e.A, e.order, e.order) /\ Shape(e.B, e.order, Cols(s.b.B)) /\ Shape(e.C, Rows(s.b.C), e.order)
Out(s, e) == Response(e.A, e.B, e.C, s.b.steps)
Earlier(s, k) == SelectSeq(s.models, LAMBDA m : m.order = k)

Start(case) == [models |-> <<>>, n |-> 0]
Step(s, e) ==
    CASE e.e = "begin" -> [b |-> e, models |-> <<>>, n |-> 0]
      [] e.e = "model" /\ e.err = "" /\ e.order < Rows(s.b.A) /\ Sized(s, e) /\ Earlier(s, e.order) = <<>> ->
           [s EXCEPT !.n = @ + 1, !.models = Append(@, [order |-> e.order, out |-> TLCEval(Out(s, e))])]
      [] OTHER -> [s EXCEPT !.n = @ + 1]

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "model" ->
           IF e.err # "" THEN {"NoError"}
           ELSE IF ~Sized(s, e) THEN {"OrderOfTheModel"}
           ELSE IF e.order = Rows(s.b.A)
                THEN If(Same(Out(s, e), Response(s.b.A, s.b.B, s.b.C, s.b.steps)), "ReproducesTheSystem")
                ELSE LET m == Earlier(s, e.order) IN If(m = <<>> \/ Same(Out(s, e), m[1].out), "RoutesAgree")
      [] e.e = "eigs" ->
           IF e.err # "" THEN {"NoError"}
           ELSE If(Len(e.vals) = Rows(s.b.A)
                   /\ LET k == Rows(s.b.A) a == Traces(s.b.A, s.b.A, k) p == PowerSums(e.vals, e.vals, k)
                      IN \A i \in 1..k : CNear(a[i], p[i], S \div 50 + Mx(a[i]) \div 50), "Eigenvalues")
      [] OTHER -> {"NoError"}
EndFails(s) == If(s.n > 0, "Result")

INSTANCE TraceRunner
===============================================================================
