-------------------------------- MODULE Symm --------------------------------
(***************************************************************************)
(* The symmetric inner-product array: every unordered pair of n vectors.   *)
(*                                                                         *)
(* The vectors are taken in groups of at most (M - 1) P, each divided among *)
(* the workers.  For a group, every worker computes                        *)
(*   - the triangle of the pairs of its own vectors,                       *)
(*   - squares: in exchange k = 1, 2, ... the pairs of its own vectors and  *)
(*     those of the worker k places before it, among the `a` workers which *)
(*     have vectors, for k up to (a - 1) / 2 rounded up,                   *)
(*   - the rectangle of its own vectors and all vectors after the group,   *)
(*     which travel round the workers (see Ring.tla).                      *)
(* If `a` is even the last exchange computes the pairs of opposite workers *)
(* twice, from either side: the array has to be assembled with care, each  *)
(* element from one of the two (C03).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxP, MaxN, MaxM

VARIABLES P, M, n, first,    \* first: index of the first vector of the group
          own,               \* own[w]: run of the group's vectors of worker w, <<lo, hi>>
          phase, k,          \* "divide", "triangle", "squares" (exchange k), "rectangle"
          times,             \* times[<<i, j>>]: how often element (i, j) was computed
          reads              \* reads[w]

vars == <<P, M, n, first, own, phase, k, times, reads>>

CeilDiv(a, b) == (a + b - 1) \div b
Min(a, b) == IF a < b THEN a ELSE b
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* runs whose lengths differ by at most one; only the last workers may get none *)
Runs(m, p) ==
    {d \in [1..p -> {m \div p, CeilDiv(m, p)}] :
        /\ LET f[j \in 0..p] == IF j = 0 THEN 0 ELSE f[j-1] + d[j] IN f[p] = m
        /\ \A w \in 1..(p - 1) : d[w] = 0 => d[w + 1] = 0}
Interval(lo, d, w) ==
    LET f[j \in 0..Len(d)] == IF j = 0 THEN lo ELSE f[j-1] + d[j]
    IN <<f[w-1], f[w] - 1>>

Last == Min(n, first + (M - 1) * P - 1)
Set(w) == own[w][1]..own[w][2]
Active == Cardinality({w \in 1..P : Set(w) # {}})
Exchanges == Active \div 2          \* (a - 1) / 2, rounded up

Init == /\ P \in 1..MaxP /\ M \in 3..MaxM /\ n \in 1..MaxN
        /\ first = 1 /\ phase = "divide" /\ k = 0
        /\ own = [w \in 1..P |-> <<1, 0>>]
        /\ times = [e \in (1..n) \X (1..n) |-> 0]
        /\ reads = [w \in 1..P |-> 0]

Divide ==
    /\ phase = "divide" /\ first <= n
    /\ \E d \in Runs(Last - first + 1, P) :
         own' = [w \in 1..P |-> Interval(first, d, w)]
    /\ reads' = [w \in 1..P |-> reads[w] + (own'[w][2] - own'[w][1] + 1)]
    /\ phase' = "triangle"
    /\ UNCHANGED <<P, M, n, first, k, times>>

Add(S(_)) == times' = [e \in DOMAIN times |-> times[e] + Cardinality({w \in 1..P : e \in S(w)})]

Triangle ==
    /\ phase = "triangle"
    /\ LET T(w) == {e \in Set(w) \X Set(w) : e[1] <= e[2]} IN Add(T)
    /\ k' = 1
    /\ phase' = IF Exchanges = 0 THEN "rectangle" ELSE "squares"
    /\ UNCHANGED <<P, M, n, first, own, reads>>

Squares ==
    /\ phase = "squares"
    /\ LET From(w) == ((w - 1 - k + Active) % Active) + 1
           T(w) == IF w > Active THEN {} ELSE Set(w) \X Set(From(w))
       IN Add(T)
    /\ k' = k + 1
    /\ phase' = IF k < Exchanges THEN "squares" ELSE "rectangle"
    /\ UNCHANGED <<P, M, n, first, own, reads>>

Rectangle ==
    /\ phase = "rectangle"
    /\ LET T(w) == Set(w) \X ((Last + 1)..n) IN Add(T)
    (* the vectors after the group are read P at a time, one by each worker *)
    /\ reads' = [w \in 1..P |-> reads[w] + CeilDiv(n - Last, P)]
    /\ first' = Last + 1 /\ phase' = "divide" /\ k' = 0
    /\ UNCHANGED <<P, M, n, own>>

Next == Divide \/ Triangle \/ Squares \/ Rectangle
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Finished == first > n
Count(i, j) == IF i = j THEN times[<<i, i>>] ELSE times[<<i, j>>] + times[<<j, i>>]
(* every pair is computed, each element once at most, a pair at most twice *)
AllPairs == Finished => \A i, j \in 1..n : Count(i, j) >= 1
ElementOnce == \A e \in DOMAIN times : times[e] <= 1
DiagonalOnce == \A i \in 1..n : times[<<i, i>>] <= 1
(* one worker, or an odd number of them, computes nothing twice *)
NoWaste == (P % 2 = 1 /\ n % P = 0) => \A i, j \in 1..n : Count(i, j) <= 1
(* not more reads than for the complete array *)
ReadsAsDocumented ==
    \A w \in 1..P : reads[w] <= CeilDiv(n, P) + CeilDiv(n, P) * CeilDiv(CeilDiv(n, P), M - 2)
=============================================================================
