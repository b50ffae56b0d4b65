----------------------------- MODULE OutputsTrace -----------------------------
(***************************************************************************)
(* Sequences of distributed calls on P workers that share vectors and      *)
(* arrays (files), as their users see them (C05, C06, C09).                *)
(*                                                                         *)
(* begin: calls = for each call the output vectors `outs` it has to put,   *)
(*   the arrays `saves` it has to write and the arrays `loads` it reads;   *)
(*   ref = for each call the result of another run (another schedule), and *)
(*   all its outputs; <<>> when there is none                              *)
(* call/ret: worker r enters / returns from call k with result res         *)
(* put/save/load: by worker r                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES c, l, st, bad

Range(s) == {s[i] : i \in DOMAIN s}
If(cond, name) == IF cond THEN {} ELSE {name}

Start(case) == [P |-> 0, calls |-> <<>>, ref |-> <<>>, at |-> <<>>, did |-> {}, first |-> <<>>,
                back |-> {}]

(* at[r+1]: the call worker r is in (0: none); did: <<call, kind, name>>     *)
Step(s, e) ==
    CASE e.e = "begin" -> [P |-> e.P, calls |-> e.calls, ref |-> e.ref,
                           at |-> [r \in 1..e.P |-> 0], did |-> {},
                           first |-> [k \in 1..Len(e.calls) |-> <<>>], back |-> {}]
      [] e.e = "call" -> [s EXCEPT !.at[e.r + 1] = e.k + 1]
      [] e.e \in {"put", "save", "load"} ->
            [s EXCEPT !.did = @ \cup {<<s.at[e.r + 1], e.e, e.h>>}]
      [] e.e = "ret" -> [s EXCEPT !.at[e.r + 1] = 0,
                                  !.first[e.k + 1] = IF @ = <<>> THEN <<e.res>> ELSE @,
                                  !.back = @ \cup {<<e.r, e.k + 1>>}]
      [] OTHER -> s

(* equal up to the last digit of the fixed-point numbers *)
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] - b[i] \in -2..2

Fails(s, e) ==
    CASE e.e \in {"begin", "call"} -> {}
      [] e.e = "put" ->
            LET k == s.at[e.r + 1] IN
            IF k = 0 THEN {"OnlyRequestedOutputs"}
            ELSE If(e.h \in Range(s.calls[k].outs), "OnlyRequestedOutputs")
                 \cup If(<<k, "put", e.h>> \notin s.did, "PutOnce")
      [] e.e = "save" ->
            LET k == s.at[e.r + 1] IN
            IF k = 0 THEN {"SavedAsRequested"}
            ELSE If(e.h \in Range(s.calls[k].saves), "SavedAsRequested")
                 \cup If(<<k, "save", e.h>> \notin s.did, "SavedOnce")
                 \cup If(e.r = 0, "SavedByWorkerZero")
      [] e.e = "load" ->
            LET k == s.at[e.r + 1] IN
            IF k = 0 THEN {"LoadedAsRequested"}
            ELSE If(e.h \in Range(s.calls[k].loads), "LoadedAsRequested")
                 \cup If(<<k, "load", e.h>> \notin s.did, "LoadedOnce")
                 \cup If(e.r = 0, "LoadedByWorkerZero")
      [] e.e = "ret" ->
            LET k == e.k + 1 IN
            If(\A h \in Range(s.calls[k].outs) : <<k, "put", h>> \in s.did, "PutBeforeReturn")
            \cup If(\A h \in Range(s.calls[k].saves) : <<k, "save", h>> \in s.did, "SavedBeforeReturn")
            \cup If(\A h \in Range(s.calls[k].loads) : <<k, "load", h>> \in s.did, "Loaded")
            \cup If(s.first[k] = <<>> \/ Near(s.first[k][1], e.res), "SameOnEveryWorker")
            \cup If(s.ref = <<>> \/ Near(s.ref[k], e.res), "SameForEverySchedule")
      [] e.e = "error" -> {"NoError"}
      [] e.e = "end" ->
            If(e.problem = "none", "NoDeadlock")
            \cup If(e.leftover = 0 \/ e.problem # "none", "NoLeftover")
            \cup If(Cardinality(s.back) = s.P * Len(s.calls), "EveryCallReturns")
            \cup If(s.ref = <<>> \/ Near(s.ref[Len(s.calls) + 1], e.final), "SameForEverySchedule")
      [] OTHER -> {"UnknownEvent"}

EndFails(s) == {}

INSTANCE TraceRunner
=============================================================================
