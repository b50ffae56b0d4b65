----------------------------- MODULE GalerkinTrace -----------------------------
(***************************************************************************)
(* Galerkin projection and time derivatives (C20), in fixed-point          *)
(* arithmetic.                                                             *)
(*                                                                         *)
(* begin: a projection object: Phi, Psi (columns: basis and adjoint basis),*)
(*   W the weights, orth: declared bi-orthonormal; P: number of workers    *)
(* A, B: the array of A (B) applied to the basis (standard basis) and the  *)
(*   reduced array returned to worker r; C: likewise                       *)
(* put: what is put, where it comes from                                   *)
(* derivs: vectors, advanced vectors, dt and the derivatives               *)
(* basis: the standard basis of n dimensions                               *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
T == 80

Ip(s, Z) == HMul(s.Psi, MMul(s.W, Z))

Reduced(s, e, name) ==
    LET k == Cols(s.Phi) IN
    IF ~Shape(e.res, k, Cols(e.on)) THEN {name}
    ELSE LET want == Ip(s, e.on) IN
         If(MEq(IF s.orth THEN e.res ELSE MMul(s.G, e.res), want, T), name)

None == [A |-> <<>>, B |-> <<>>, C |-> <<>>]
Start(case) == [seen |-> FALSE, P |-> 0, got |-> {}, calls |-> 0]
Step(s, e) ==
    IF e.e = "begin"
    THEN [seen |-> TRUE, Phi |-> e.Phi, Psi |-> e.Psi, W |-> e.W, orth |-> e.orth, P |-> e.P,
          G |-> HMul(e.Psi, MMul(e.W, e.Phi)), got |-> {}, last |-> None]
    ELSE IF e.e \in {"A", "B", "C"} /\ s.seen
    THEN [s EXCEPT !.got = @ \cup {<<e.n, e.r>>}, !.last[e.e] = e.res]
    ELSE [s EXCEPT !.seen = TRUE]

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "A" -> Reduced(s, e, "ReducedA")
      [] e.e = "B" -> Reduced(s, e, "ReducedB")
      [] e.e = "C" -> If(Shape(e.res, Rows(e.on), Cols(e.on)) /\ MEq(e.res, e.on, T), "ReducedC")
      [] e.e = "put" -> If(e.res = s.last[e.what], "PutAsComputed")
      [] e.e = "derivs" ->
           IF ~Shape(e.res, Rows(e.X), Cols(e.X)) THEN {"Derivatives"}
           ELSE If(\A i \in 1..Rows(e.X) : \A j \in 1..Cols(e.X) :
                     CNear(CScale(e.dt, e.res[i][j]), CSub(e.Y[i][j], e.X[i][j]),
                           S \div 400 + FMul(Ab(e.dt), 2)), "Derivatives")
      [] e.e = "basis" -> If(e.res = MId(e.n), "StandardBasis")
      [] e.e = "calls" -> If(\A r \in 0..(s.P - 1) : \A i \in 1..e.n : <<i, r>> \in s.got, "OnEveryWorker")
      [] e.e = "error" -> {"NoError"}
      [] e.e = "end" -> If(e.problem = "none", "NoDeadlock")
      [] OTHER -> {"Unknown"}
EndFails(s) == If(s.seen, "Result")

INSTANCE TraceRunner
===============================================================================
