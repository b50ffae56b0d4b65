------------------------------- MODULE EraTrace -------------------------------
(***************************************************************************)
(* The eigensystem realization algorithm (C18), in fixed-point arithmetic. *)
(*                                                                         *)
(* begin: the Hankel sizes given to the object (mc, mo; -1: none) and the  *)
(*   system A, B, C the impulse responses come from (<<>>: no system)      *)
(* sampled: make_sampled_format: times (in 1e-7 units), tol, M (samples),  *)
(*   out (samples), steps, err                                             *)
(* model: sizes given to the call (mc, mo), M: the samples, ns: number of  *)
(*   states asked for, exact: ns is the order of the system and of H;      *)
(*   rmc, rmo: sizes used, H, H2, sv, L, R: decomposition, A, B, C: model  *)
(* func: compute_ERA_model (default sizes), model only                     *)
(* put: what was put where, and what should have been                      *)
(***************************************************************************)
EXTENDS Fixed

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
T == 40

RECURSIVE Response(_, _, _, _)
Response(A, X, C, n) == IF n = 0 THEN <<>> ELSE <<MMul(C, X)>> \o Response(A, MMul(A, X), C, n - 1)

(* ------------------------------------------------------ sampled format *)
Even(t, tol) == \A i \in 1..(Len(t) - 1) : Ab((t[i + 1] - t[i]) - (t[2] - t[1])) <= tol
Dup(M) == [i \in 1..(2 * (Len(M) - 1)) |-> M[(i \div 2) + 1]]
Sampled(e) ==
    LET ok == Len(e.times) = Len(e.M) /\ Len(e.M) >= 2 /\ Even(e.times, e.tol) IN
    IF ~ok THEN If(e.err # "", "Rejected")
    ELSE If(e.err = "", "Accepted")
         \cup (IF e.err # "" THEN {} ELSE
               If(e.steps = [i \in 1..(2 * (Len(e.M) - 1)) |-> i \div 2], "DuplicatedTimes")
               \cup If(e.out = Dup(e.M), "DuplicatedSamples"))

(* --------------------------------------------------------------- sizes *)
Given(call, obj) == IF call >= 0 THEN call ELSE obj
Sizes(s, e) ==
    LET mc == Given(e.mc, s.mc) mo == Given(e.mo, s.mo) nt == Len(e.M) - (Len(e.M) % 2) d == (nt + 2) \div 4 IN
    IF mc < 0 /\ mo < 0 THEN [mc |-> d, mo |-> d]
    ELSE [mc |-> mc, mo |-> mo]                    \* one of them may be left open (-1)
Admissible(z, nt) == z.mc # 0 /\ z.mo # 0
                     /\ 2 * ((IF z.mc < 0 THEN 1 ELSE z.mc) + (IF z.mo < 0 THEN 1 ELSE z.mo)) - 2 <= nt

(* -------------------------------------------------------------- Hankel *)
Block(M, shift, mo, mc) ==
    LET p == Len(M[1]) m == Len(M[1][1]) IN
    [i \in 1..(p * mo) |-> [j \in 1..(m * mc) |->
        M[2 * ((i - 1) \div p + (j - 1) \div m) + 1 + shift][((i - 1) % p) + 1][((j - 1) % m) + 1]]]

Orthonormal(U, k) == MNear(HMul(U, U), MId(k), S \div T)
Energy(H) == FoldLeft(LAMBDA a, r : Clamp(a + FoldLeft(LAMBDA b, z : Clamp(b + Mag2(z)), 0, r)), 0, H)
SumSq(d) == FoldLeft(LAMBDA a, x : Clamp(a + FMul(x, x)), 0, d)

Reproduces(s, e) ==
    LET k == s.steps
        M1 == Response(s.A, s.B, s.C, k)
        M2 == Response(e.A, e.B, e.C, k)
    IN \A i \in 1..k : MEq(M2[i], M1[i], 25)

ModelShape(e, k) == Shape(e.A, k, k) /\ Shape(e.B, k, Len(e.M[1][1])) /\ Shape(e.C, Len(e.M[1]), k)

Decomposed(s, e) ==
    LET z == [mc |-> e.rmc, mo |-> e.rmo]
        nt == Len(e.M) - (Len(e.M) % 2)
    IN  IF ~(Admissible(z, nt) /\ z.mc > 0 /\ z.mo > 0) THEN {"Sizes"} ELSE
        LET p == Len(e.M[1]) m == Len(e.M[1][1]) r == Len(e.sv)
            H == TLCEval(Block(e.M, 0, z.mo, z.mc)) H2 == TLCEval(Block(e.M, 1, z.mo, z.mc))
            k == IF e.ns < r THEN e.ns ELSE r
            first(A) == ColsOf(A, [i \in 1..k |-> i])
            root == Real([i \in 1..k |-> FSqrt(e.sv[i])])
        IN If(e.H = H, "HankelArray") \cup If(e.H2 = H2, "SecondHankelArray")
           \cup If(\A i \in 1..(r - 1) : e.sv[i] + 1 >= e.sv[i + 1], "Descending")
           \cup If(Ab(Energy(H) - SumSq(e.sv)) <= S \div T + Energy(H) \div T, "SingularValues")
           \cup (IF ~(Shape(e.L, p * z.mo, r) /\ Shape(e.R, m * z.mc, r)) THEN {"SingularVectors"} ELSE
                 If(/\ MEq(MMul(H, e.R), ColScale(e.L, Real(e.sv)), T) /\ MEq(HMul(H, e.L), ColScale(e.R, Real(e.sv)), T)
                    /\ Orthonormal(e.L, r) /\ Orthonormal(e.R, r), "SingularVectors")
                 \cup (IF ~ModelShape(e, k) THEN {"ModelShape"} ELSE
                       \* the balanced realization: sqrt(E) A sqrt(E) = U* H2 V, B and C the leading blocks
                       If(MEq(ColScale(RowScale(e.A, [i \in 1..k |-> FSqrt(e.sv[i])]), root),
                              HMul(first(e.L), MMul(H2, first(e.R))), T), "Realization")
                       \cup If(MEq(e.B, [i \in 1..k |-> [j \in 1..m |-> CScale(FSqrt(e.sv[i]), CConj(e.R[j][i]))]], T)
                               /\ MEq(e.C, [i \in 1..p |-> [j \in 1..k |-> CScale(FSqrt(e.sv[j]), e.L[i][j])]], T), "Realization")))

Start(case) == [mc |-> -1, mo |-> -1, A |-> <<>>, B |-> <<>>, C |-> <<>>, steps |-> 0, seen |-> FALSE]
Step(s, e) == IF e.e = "begin" THEN [mc |-> e.mc, mo |-> e.mo, A |-> e.A, B |-> e.B, C |-> e.C, steps |-> e.steps, seen |-> TRUE]
              ELSE s
Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "sampled" -> Sampled(e)
      [] e.e = "model" ->
           (LET z == Sizes(s, e) nt == Len(e.M) - (Len(e.M) % 2) IN
            IF ~Admissible(z, nt) THEN If(e.err # "", "Rejected")
            ELSE If(e.err = "", "Accepted")
                 \cup (IF e.err # "" THEN {} ELSE
                       If((z.mc < 0 \/ e.rmc = z.mc) /\ (z.mo < 0 \/ e.rmo = z.mo), "Sizes")
                       \cup Decomposed(s, e)
                       \cup If(e.exact => ModelShape(e, e.ns) /\ Reproduces(s, e), "ImpulseResponse")))
      [] e.e = "func" ->
           If(e.err = "", "Accepted")
           \cup If(e.err # "" \/ (ModelShape(e, e.ns) /\ Reproduces(s, e)), "ImpulseResponse")
      [] e.e = "put" -> If(e.got = e.want, "PutAsComputed")
EndFails(s) == If(s.seen, "Result")

INSTANCE TraceRunner
===============================================================================
