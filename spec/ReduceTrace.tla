----------------------------- MODULE ReduceTrace -----------------------------
(***************************************************************************)
(* Sequences of reductions on P workers against part 1 of Reduce.tla (C08) *)
(*                                                                         *)
(* begin: P, calls = sequence of [kind, op, root, x], x[r+1] what worker r *)
(*   contributes (a sequence of integers)                                  *)
(* ret: worker r returns from call k; has = 0: nothing, 1: value; kept =   *)
(*   its contribution read again afterwards                                *)
(* again: the contribution and the result read again at the very end       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}

MatMul(a, b) == <<a[1] * b[1] + a[2] * b[3], a[1] * b[2] + a[2] * b[4],
                  a[3] * b[1] + a[4] * b[3], a[3] * b[2] + a[4] * b[4]>>
Pick(a, b, better) == IF better THEN a ELSE b
Op(op, a, b) ==
    CASE op = "cat" -> a \o b
      [] op = "mat" -> MatMul(a, b)
      [] op = "first" -> a
      [] op = "last" -> b
      [] op = "sum" -> [i \in DOMAIN a |-> a[i] + b[i]]
      [] op = "prod" -> [i \in DOMAIN a |-> a[i] * b[i]]
      [] op = "max" -> [i \in DOMAIN a |-> Max({a[i], b[i]})]
      [] op = "min" -> [i \in DOMAIN a |-> Min({a[i], b[i]})]

Fold(op, x) == FoldLeft(LAMBDA a, b : Op(op, a, b), x[1], Tail(x))

(* value and lowest rank holding it *)
Loc(op, x) == LET vals == {x[i][1] : i \in DOMAIN x}
                  v == IF op = "maxloc" THEN Max(vals) ELSE Min(vals)
              IN <<v, Min({i \in DOMAIN x : x[i][1] = v}) - 1>>

Value(call, n) == LET x == SubSeq(call.x, 1, n) IN
                  IF call.op \in {"maxloc", "minloc"} THEN Loc(call.op, x) ELSE Fold(call.op, x)

Expected(call, r, P) ==       \* <<has, value>>
    CASE call.kind = "reduce" -> IF r = call.root THEN <<1, Value(call, P)>> ELSE <<0, <<>>>>
      [] call.kind = "allreduce" -> <<1, Value(call, P)>>
      [] call.kind = "scan" -> <<1, Value(call, r + 1)>>
      [] call.kind = "exscan" -> IF r = 0 THEN <<0, <<>>>> ELSE <<1, Value(call, r)>>

Clause(kind) == CASE kind = "reduce" -> "ReduceOnRootOnly" [] kind = "allreduce" -> "AllreduceEverywhere"
                  [] kind = "scan" -> "ScanPrefix" [] kind = "exscan" -> "ExscanPrefix"

Start(case) == [P |-> 0, calls |-> <<>>, back |-> {}]
Step(s, e) == CASE e.e = "begin" -> [P |-> e.P, calls |-> e.calls, back |-> {}]
                [] e.e = "ret" -> [s EXCEPT !.back = @ \cup {<<e.r, e.k>>}]
                [] OTHER -> s

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e \in {"ret", "again"} ->
           LET call == s.calls[e.k + 1] IN
           If(<<e.has, e.res>> = Expected(call, e.r, s.P), Clause(call.kind))
           \cup If(e.kept = call.x[e.r + 1], "ContributionKept")
      [] e.e = "error" -> {"NoError"}
      [] e.e = "end" ->
           If(e.problem = "none", "NoDeadlock")
           \cup If(e.leftover = 0 \/ e.problem # "none", "NoLeftover")
           \cup If(Cardinality(s.back) = s.P * Len(s.calls), "EveryCallReturns")
      [] OTHER -> {"UnknownEvent"}

EndFails(s) == {}

INSTANCE TraceRunner
=============================================================================
