-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The passing cycle behind inner products and linear combinations.        *)
(*                                                                         *)
(* P workers compute something for every pair (s, t) of `ns` stationary    *)
(* and `nt` travelling vectors (rows and columns of an inner-product       *)
(* array; sums and basis vectors of a linear combination).  Both lists are *)
(* divided among the workers in runs whose lengths differ by at most one.  *)
(* A worker holds a chunk of at most M - 1 of its stationary vectors and   *)
(* one travelling vector.  For each chunk the workers read their           *)
(* travelling vectors one at a time, and pass what they hold to the next   *)
(* worker until it has gone round.  A barrier follows each pass, so rounds *)
(* are modelled in lock step (Mpi.tla looks at the messages themselves).   *)
(*                                                                         *)
(* All P <= MaxP, ns, nt <= MaxN, 3 <= M <= MaxM, all even divisions.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxP, MaxN, MaxM

VARIABLES P, M, own, trav,     \* own[w], trav[w]: first and last index, a run
          chunk, get, pass,    \* loop counters, common to all workers
          held,                \* held[w]: set of travelling vectors (at most one)
          done,                \* done[w]: sequence of pairs worker w has computed
          reads                \* reads[w]: how many vectors w has read

vars == <<P, M, own, trav, chunk, get, pass, held, done, reads>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
CeilDiv(a, b) == (a + b - 1) \div b

(* the divisions of n things among p workers in runs, lengths differing by <= 1 *)
Runs(n, p) ==
    {d \in [1..p -> {n \div p, CeilDiv(n, p)}] :
        LET f[k \in 0..p] == IF k = 0 THEN 0 ELSE f[k-1] + d[k] IN f[p] = n}
Start(d, w) == LET f[k \in 0..Len(d)] == IF k = 0 THEN 1 ELSE f[k-1] + d[k] IN f[w-1]
Interval(d, w) == <<Start(d, w), Start(d, w) + d[w] - 1>>

Size(run) == run[2] - run[1] + 1
Chunks == CeilDiv(Max({Size(own[w]) : w \in 1..P}), M - 1)
Gets == Max({Size(trav[w]) : w \in 1..P})

(* stationary vectors of worker w in the current chunk, and the one it reads *)
Mine(w) == {s \in own[w][1]..own[w][2] :
              s >= own[w][1] + chunk * (M - 1) /\ s < own[w][1] + (chunk + 1) * (M - 1)}
Reads(w) == {t \in {trav[w][1] + get} : t <= trav[w][2]}

Prev(w) == IF w = 1 THEN P ELSE w - 1

Init == /\ P \in 1..MaxP /\ M \in 3..MaxM
        /\ \E ns, nt \in 1..MaxN :
             /\ \E d \in Runs(ns, P) : own = [w \in 1..P |-> Interval(d, w)]
             /\ \E d \in Runs(nt, P) : trav = [w \in 1..P |-> Interval(d, w)]
        /\ chunk = 0 /\ get = 0 /\ pass = 0
        /\ held = [w \in 1..P |-> {}]
        /\ done = [w \in 1..P |-> <<>>]
        /\ reads = [w \in 1..P |-> 0]

Finished == chunk >= Chunks

(* pass 0: everyone reads; later passes: everyone receives what the one     *)
(* before held; then everyone computes with what it has                     *)
Round ==
    /\ ~Finished
    /\ held' = [w \in 1..P |-> IF pass = 0 THEN Reads(w) ELSE held[Prev(w)]]
    /\ reads' = [w \in 1..P |-> reads[w]
                   + (IF pass = 0 THEN Cardinality(Reads(w)) ELSE 0)
                   + (IF pass = 0 /\ get = 0 THEN Cardinality(Mine(w)) ELSE 0)]
    /\ done' = [w \in 1..P |->
                  done[w] \o [i \in 1..Cardinality(Mine(w) \X held'[w]) |->
                     LET t == CHOOSE x \in held'[w] : TRUE
                         lo == CHOOSE s \in Mine(w) : \A u \in Mine(w) : s <= u
                     IN <<lo + i - 1, t>>]]
    /\ IF pass < P - 1 THEN pass' = pass + 1 /\ UNCHANGED <<get, chunk>>
       ELSE /\ pass' = 0
            /\ IF get < Gets - 1 THEN get' = get + 1 /\ UNCHANGED chunk
               ELSE get' = 0 /\ chunk' = chunk + 1
    /\ UNCHANGED <<P, M, own, trav>>

Spec == Init /\ [][Round]_vars

-----------------------------------------------------------------------------
NS == own[P][2]
NT == trav[P][2]
Pairs(w) == {done[w][i] : i \in DOMAIN done[w]}

(* nothing is computed twice, by one worker or by two *)
NeverTwice ==
    /\ \A w \in 1..P : Cardinality(Pairs(w)) = Len(done[w])
    /\ \A v, w \in 1..P : v # w => Pairs(v) \cap Pairs(w) = {}
(* in the end everything is computed, each pair where its stationary vector lives *)
AllPairs ==
    Finished => /\ \A w \in 1..P : Pairs(w) = (own[w][1]..own[w][2]) \X (1..NT)
(* a worker holds at most its chunk, the vector it has and the one it receives *)
Holding ==
    \A w \in 1..P : Cardinality(Mine(w)) + Cardinality(held[w]) <= M
(* the cost of the documentation, rounded up: CostTrace.tla *)
ReadsAsDocumented ==
    \A w \in 1..P : reads[w] <= CeilDiv(NS, P) + CeilDiv(NT, P) * CeilDiv(CeilDiv(NS, P), M - 2)
PairsAsDocumented ==
    \A w \in 1..P : Len(done[w]) <= CeilDiv(NS, P) * NT
=============================================================================
