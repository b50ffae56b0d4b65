-------------------------------- MODULE LtiSys --------------------------------
(***************************************************************************)
(* Discrete-time linear systems over the Gaussian integers:                *)
(*      x(n+1) = A x(n) + B u(n),    y(n) = C x(n) + D u(n).               *)
(* Systems with entries k/q are scaled: with A = A'/q the numerators       *)
(* x'(n) = q^n x(n) follow x'(n+1) = A' x'(n) + q^(n+1) B u(n).            *)
(***************************************************************************)
EXTENDS Gauss

MVec(A, x) == [i \in 1..Rows(A) |-> CSum([j \in 1..Len(x) |-> CMul(A[i][j], x[j])])]
RECURSIVE Pow(_, _)
Pow(q, n) == IF n = 0 THEN 1 ELSE q * Pow(q, n - 1)
VK(k, v) == [i \in 1..Len(v) |-> CScale(k, v[i])]

(* the state transition and the output *)
Advance(sys, n, x, u) == TLCEval(VAdd(MVec(sys.A, x), VK(Pow(sys.q, n + 1), MVec(sys.B, u))))
Output(sys, x) == MVec(sys.C, x)

(* numerators of C A^k B *)
RECURSIVE APow(_, _)
APow(A, k) == IF k = 0 THEN MId(Rows(A)) ELSE MMul(A, APow(A, k - 1))
Markov(sys, k) == MMul(sys.C, MMul(APow(sys.A, k), sys.B))
===============================================================================
