----------------------------- MODULE HelpersTrace -----------------------------
(***************************************************************************)
(* The worker-zero helpers of modred.parallel (C09).                       *)
(*                                                                         *)
(* begin: P, hosts[r+1] = node of worker r, calls = sequence of            *)
(*   [kind, val] - kind "call" (call on worker zero), "callbcast" (call on *)
(*   worker zero and broadcast), "bcast", "print" - with val what worker   *)
(*   zero supplies (arguments, value or message) and what it returns       *)
(* run: worker r executes the function handed over in call k               *)
(* ret: worker r returns from call k                                       *)
(* print: a line appears on a channel                                      *)
(* query: the answers of worker r about the layout                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}

Start(case) == [P |-> 0, hosts |-> <<>>, calls |-> <<>>, ran |-> {}, printed |-> <<>>, back |-> {},
                ids |-> {}]

Step(s, e) ==
    CASE e.e = "begin" -> [P |-> e.P, hosts |-> e.hosts, calls |-> e.calls, ran |-> {},
                           printed |-> [k \in DOMAIN e.calls |-> 0], back |-> {}, ids |-> {}]
      [] e.e = "run" -> [s EXCEPT !.ran = @ \cup {e.k}]
      [] e.e = "print" /\ (e.k + 1) \in DOMAIN s.printed -> [s EXCEPT !.printed[e.k + 1] = @ + 1]
      [] e.e = "ret" -> [s EXCEPT !.back = @ \cup {<<e.r, e.k>>}]
      [] e.e = "query" -> [s EXCEPT !.ids = @ \cup {<<s.hosts[e.r + 1], e.node>>}]
      [] OTHER -> s

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "run" ->
           LET call == s.calls[e.k + 1] IN
           If(call.kind \in {"call", "callbcast"} /\ e.k \notin s.ran, "RunOnce")
           \cup If(e.r = 0, "RunOnWorkerZero")
           \cup If(e.got = call.args, "GivenArguments")
      [] e.e = "ret" ->
           LET call == s.calls[e.k + 1] IN
           CASE call.kind \in {"callbcast", "bcast"} ->
                  If(e.has = 1 /\ e.res = call.val, "ResultEverywhere")
             [] call.kind = "call" ->
                  IF e.r = 0 THEN If(e.has = 1 /\ e.res = call.val, "ResultOnWorkerZero")
                  ELSE If(e.has = 0, "NothingElsewhere")
             [] OTHER -> {}
      [] e.e = "print" ->
           If((e.k + 1) \in DOMAIN s.calls /\ s.calls[e.k + 1].kind = "print"
              /\ e.text = s.calls[e.k + 1].text, "PrintedAsGiven")
           \cup If(e.r = 0, "PrintedByWorkerZero")
           \cup If((e.k + 1) \in DOMAIN s.calls => e.ch = s.calls[e.k + 1].ch, "PrintedToChannel")
      [] e.e = "query" ->
           If(e.rank = e.r /\ e.zero = (e.r = 0), "RankQueries")
           \cup If(e.size = s.P /\ e.procs = s.P /\ e.dist = (s.P > 1), "SizeQueries")
           \cup If(e.host = s.hosts[e.r + 1]
                   /\ e.nodes = Cardinality({s.hosts[i] : i \in DOMAIN s.hosts})
                   /\ \A i \in s.ids : (i[1] = s.hosts[e.r + 1]) = (i[2] = e.node), "NodeQueries")
      [] e.e = "error" -> {"NoError"}
      [] e.e = "end" ->
           If(e.problem = "none", "NoDeadlock")
           \cup If(\A k \in DOMAIN s.calls : s.calls[k].kind \in {"call", "callbcast"} => (k - 1) \in s.ran,
                   "RunOnce")
           \cup If(\A k \in DOMAIN s.calls : s.calls[k].kind = "print" => s.printed[k] = 1, "PrintedOnce")
           \cup If(Cardinality(s.back) = s.P * Len(s.calls), "EveryCallReturns")
      [] OTHER -> {"UnknownEvent"}

EndFails(s) == {}

INSTANCE TraceRunner
=============================================================================
