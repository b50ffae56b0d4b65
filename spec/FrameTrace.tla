------------------------------ MODULE FrameTrace ------------------------------
(***************************************************************************)
(* Frame conditions of all computations (C28).                             *)
(*                                                                         *)
(* Every worker has named objects: the arguments it made and the results   *)
(* it was given.  Values are digests.                                      *)
(*                                                                         *)
(* make: worker r has new arguments (names and values)                     *)
(* call: worker r called fn; outs: the names of the destinations given to  *)
(*   the call (they may change); vals: all named objects of the worker     *)
(*   after the call, new results among them; err ("" if none)              *)
(* end: how the run ended                                                  *)
(*                                                                         *)
(* The value of a name changes only by calls which have it as destination. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
Elems(s) == {s[i] : i \in DOMAIN s}
Map(pairs) == TLCEval([n \in {p[1] : p \in Elems(pairs)} |-> (CHOOSE p \in Elems(pairs) : p[1] = n)[2]])

Start(case) == [mem |-> <<>>, n |-> 0]
Step(s, e) ==
    CASE e.e = "begin" -> [mem |-> [r \in 0..(e.P - 1) |-> <<>>], n |-> 0]
      [] e.e \in {"make", "call"} -> [s EXCEPT !.mem[e.r] = Map(e.vals), !.n = @ + 1]
      [] OTHER -> s
Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e \in {"make", "call"} ->
           LET old == s.mem[e.r] new == Map(e.vals)
               kept == DOMAIN old \ (IF e.e = "call" THEN Elems(e.outs) ELSE {})
               lost == {n \in kept : n \notin DOMAIN new \/ new[n] # old[n]}
           IN If(e.err = "", "NoError")
              \cup If(\A n \in lost : n \notin Elems(e.args), "InputsUntouched")
              \cup If(lost \subseteq Elems(e.args), "EarlierObjectsUntouched")
      [] e.e = "end" -> If(e.problem = "none", "NoDeadlock")
      [] e.e = "error" -> {"WorkerFailed"}
      [] OTHER -> {"Unknown"}
EndFails(s) == If(s.n > 0, "Result")

INSTANCE TraceRunner
===============================================================================
