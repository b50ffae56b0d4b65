----------------------------- MODULE HandleTrace -----------------------------
(***************************************************************************)
(* Recorded gets and puts through vector handles (C10): the meaning of     *)
(* HandleCache.tla over vectors of Gaussian integers.                      *)
(*                                                                         *)
(* begin: per handle its cell, base (0: none) and scale (<<>>: none or a   *)
(*        number), and the contents of every cell                          *)
(* put: vector v put through handle h;  get: vector v read through h       *)
(* raw: the stored vector of a cell read without base and scale            *)
(* again: the vector returned by an earlier get looked at again            *)
(***************************************************************************)
EXTENDS Gauss

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}

Start(case) == [cell |-> <<>>, base |-> <<>>, scale |-> <<>>, store |-> <<>>, n |-> 0]
Step(s, e) ==
    CASE e.e = "begin" -> [cell |-> e.cell, base |-> e.base, scale |-> e.scale, store |-> e.store, n |-> 0]
      [] e.e = "put" -> [s EXCEPT !.store[s.cell[e.h]] = e.v]
      [] OTHER -> s

RECURSIVE Value(_, _)
Value(s, h) ==
    LET x == s.store[s.cell[h]]
        y == IF s.base[h] = 0 THEN x ELSE VSub(x, Value(s, s.base[h]))
    IN IF s.scale[h] = <<>> THEN y ELSE VScale(s.scale[h], y)

Fails(s, e) ==
    CASE e.e \in {"begin", "put"} -> {}
      [] e.e = "get" -> If(e.v = TLCEval(Value(s, e.h)), "ReadsCurrentValue")
      [] e.e = "raw" -> If(e.v = s.store[e.cell], "StoreUnchanged")
      [] e.e = "again" -> If(e.v = e.was, "ResultKept")
      [] e.e = "error" -> {"NoError"}
      [] OTHER -> {"UnknownEvent"}
EndFails(s) == {}
INSTANCE TraceRunner
=============================================================================
