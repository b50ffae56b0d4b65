--------------------------------- MODULE Lti ---------------------------------
(***************************************************************************)
(* Design model: a linear system driven by any inputs from any initial     *)
(* condition is the sum of its free response and the convolution of its    *)
(* Markov parameters with the inputs, so that simulation (C21), impulse    *)
(* response (C21), the data of ERA (C18) and of OKID (C19) are views of    *)
(* one system; and a deadbeat observer gives the Markov parameters back    *)
(* by the recursion OKID uses.                                             *)
(***************************************************************************)
EXTENDS LtiSys
CONSTANTS N, Vals, Steps
RealVals == {<<-1, 0>>, <<0, 0>>, <<1, 0>>}
CplxVals == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, -1>>}
VARIABLES sys, x0, x, us, G
vars == <<sys, x0, x, us, G>>

Mat(n, m) == [1..n -> [1..m -> Vals]]
Init == /\ sys \in [A : Mat(N, N), B : Mat(N, 1), C : Mat(1, N), q : {1, 2}]
        /\ G \in IF N = 1 THEN Mat(1, 1) ELSE {Herm(sys.C)}
        /\ x0 \in [1..N -> Vals]
        /\ x = x0 /\ us = <<>>
Input(u) == /\ Len(us) < Steps
            /\ x' = Advance(sys, Len(us), x, <<u>>)
            /\ us' = Append(us, u)
            /\ UNCHANGED <<sys, x0, G>>
Next == \E u \in Vals : Input(u)
Spec == Init /\ [][Next]_vars

(* y(n) = C A^n x0 + sum over k < n of M(n-1-k) u(k)   (numerators over q^n) *)
Convolution ==
    LET n == Len(us) IN
    Output(sys, x)[1] =
        CAdd(MVec(sys.C, MVec(APow(sys.A, n), x0))[1],
             CSum([k \in 1..n |-> CScale(Pow(sys.q, k), CMul(Markov(sys, n - k)[1][1], us[k]))]))
(* a unit impulse at time 0 from rest lists C B, C A B, ... *)
Unit == us # <<>> /\ us[1] = <<1, 0>> /\ (\A k \in 2..Len(us) : us[k] = C0) /\ x0 = VZero(N)
Impulse == Unit => Output(sys, x)[1] = CScale(sys.q, Markov(sys, Len(us) - 1)[1][1])
(* OKID: with any observer gain G, A = Abar + G C, the parameters               *)
(* a(k) = C Abar^(k-1) G and b(k) = C Abar^(k-1) B of the observer give          *)
(* M(k) = b(k) + sum over i < k of a(i) M(k-i)   (q = 1)                          *)
Abar == MSub(sys.A, MMul(G, sys.C))
a(k) == MMul(sys.C, MMul(APow(Abar, k - 1), G))[1][1]
b(k) == MMul(sys.C, MMul(APow(Abar, k - 1), sys.B))[1][1]
Observer ==
    us = <<>> /\ sys.q = 1 =>
        \A k \in 1..3 : Markov(sys, k - 1)[1][1] =
            CAdd(b(k), CSum([i \in 1..(k - 1) |-> CMul(a(i), Markov(sys, k - i - 1)[1][1])]))
==============================================================================
