---------------------------- MODULE VecSpaceTrace ----------------------------
(***************************************************************************)
(* The distributed vector space as its users see it (C02-C07).             *)
(*                                                                         *)
(* P workers on `nodes` nodes share a store of vectors (a file system).    *)
(* One operation is called by all workers together:                        *)
(*   "ip"    the array of inner products of row and column vectors         *)
(*   "symm"  the same for one list of vectors                              *)
(*   "lc"    sums of basis vectors, put to output handles                  *)
(* The workers read and put vectors in any order the schedule allows; the  *)
(* specification says what may be put where, what each worker gets back,   *)
(* what has happened when the first worker returns, and how many vectors a *)
(* worker may hold.                                                        *)
(*                                                                         *)
(* Vectors and coefficients are in units of 1/2, results in units of 1/4.  *)
(***************************************************************************)
EXTENDS Gauss, FiniteSets

VARIABLES c, l, st, bad

Temporaries == 3

Max2(a, b) == IF a > b THEN a ELSE b

(* vectors a worker may hold: its share of the limit, at least three *)
Share(e) == IF e.limit = 0 THEN 10000 ELSE Max2(3, (e.limit * e.nodes) \div e.P)

ArrayOf(e) == [i \in 1..Len(e.rows) |-> [j \in 1..Len(e.cols) |->
                  Dot(e.store[e.rows[i]], e.store[e.cols[j]])]]

SumsOf(e) == [k \in 1..Len(e.outs) |->
                Comb([b \in 1..Len(e.basis) |-> e.coef[b][e.sel[k]]],
                     [b \in 1..Len(e.basis) |-> e.store[e.basis[b]]])]

Start(case) == [op |-> "none", P |-> 0, share |-> 0, want |-> <<>>, outs |-> <<>>,
                store |-> <<>>, puts |-> <<>>, returned |-> {}]

Step(s, e) ==
    CASE e.e = "begin" ->
           [op |-> e.op, P |-> e.P, share |-> Share(e),
            want |-> TLCEval(IF e.op = "lc" THEN SumsOf(e) ELSE ArrayOf(e)),
            outs |-> IF e.op = "lc" THEN e.outs ELSE <<>>,
            store |-> e.store,
            puts |-> IF e.op = "lc" THEN [k \in 1..Len(e.outs) |-> 0] ELSE <<>>,
            returned |-> {}]
      [] e.e = "put" ->
           [s EXCEPT !.puts = [k \in DOMAIN s.puts |->
                                 IF s.outs[k] = e.h THEN s.puts[k] + 1 ELSE s.puts[k]]]
      [] e.e = "ret" -> [s EXCEPT !.returned = @ \cup {e.r}]
      [] OTHER -> s

If(cond, name) == IF cond THEN {} ELSE {name}

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "get" -> {}
      [] e.e = "put" ->
           LET ks == {k \in DOMAIN s.outs : s.outs[k] = e.h} IN
           IF ks = {} THEN {"OnlyOutputsWritten"}
           ELSE LET k == CHOOSE x \in ks : TRUE IN
                If(s.puts[k] = 0, "PutOnce") \cup If(e.v = s.want[k], "ExactSum")
      [] e.e = "ret" ->
           If(e.r \notin s.returned, "ReturnsOnce")
           \cup (IF s.op = "lc"
                 THEN If(\A k \in DOMAIN s.puts : s.puts[k] >= 1, "PutBeforeReturn")
                 ELSE If(Len(e.val) = Len(s.want) /\
                         \A i \in DOMAIN e.val : Len(e.val[i]) = Len(s.want[i]), "ArrayShape")
                      \cup If(e.val = s.want, "ExactArray")
                      \cup If(e.same, "SameOnEveryWorker"))
      [] e.e = "mem" -> If(e.peak <= s.share + Temporaries, "Budget")
      [] e.e = "error" -> {"NoError"}
      [] e.e = "end" ->
           If(e.problem = "none", "NoDeadlock")
           \cup If(e.leftover = 0 \/ e.problem # "none", "NoLeftover")
           \cup If(Cardinality(s.returned) = s.P, "EveryWorkerReturns")
           \cup If(\A h \in DOMAIN s.store : e.store[h] = s.store[h], "InputsUnchanged")
           \cup If(e.extra = 0, "OnlyOutputsWritten")
           \cup If(\A k \in DOMAIN s.puts : s.puts[k] = 1, "PutExactlyOnce")
      [] OTHER -> {"UnknownEvent"}

EndFails(s) == {}

INSTANCE TraceRunner
=============================================================================
