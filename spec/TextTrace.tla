------------------------------ MODULE TextTrace ------------------------------
(***************************************************************************)
(* Arrays saved as text and vectors put through file handles (C11).        *)
(*                                                                         *)
(* Numbers are uninterpreted: every double is named by a string, so equal  *)
(* strings are equal values.  An array entry is <<re, im>>.  A file is a   *)
(* sequence of lines, a line a sequence of numbers.                        *)
(*                                                                         *)
(* save: array `a` (rows of entries; a vector is one column) with ndim     *)
(*   dimensions, complex or not, saved in file f; err = "" or the error    *)
(* file: what the file holds now (lines)                                   *)
(* write: file f written by hand with the given lines                      *)
(* load: file f read as complex or not: rows of entries, or an error       *)
(* hput/hget: an array put in / read from a pickle handle, as a whole      *)
(* given: the array handed to save, looked at again                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
Zero == "0x0.0p+0"

(* the layout of a text file *)
RECURSIVE ReIm(_)
ReIm(row) == IF row = <<>> THEN <<>> ELSE <<Head(row)[1], Head(row)[2]>> \o ReIm(Tail(row))
Line(row, cplx) == IF cplx THEN ReIm(row) ELSE [j \in DOMAIN row |-> row[j][1]]
Lines(a, cplx) == [i \in DOMAIN a |-> Line(a[i], cplx)]

(* its meaning *)
Entries(line, cplx) ==
    IF cplx THEN [j \in 1..(Len(line) \div 2) |-> <<line[2 * j - 1], line[2 * j]>>]
    ELSE [j \in DOMAIN line |-> <<line[j], Zero>>]
Array(lines, cplx) == [i \in DOMAIN lines |-> Entries(lines[i], cplx)]
Odd(lines) == \E i \in DOMAIN lines : Len(lines[i]) % 2 = 1

Start(case) == [files |-> <<>>, kept |-> <<>>]

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Step(s, e) ==
    CASE e.e = "save" /\ e.ndim <= 2 -> [s EXCEPT !.files = Put(@, e.f, Lines(e.a, e.cplx))]
      [] e.e = "write" -> [s EXCEPT !.files = Put(@, e.f, e.lines)]
      [] e.e = "hput" -> [s EXCEPT !.kept = Put(@, e.f, e.a)]
      [] OTHER -> s

Fails(s, e) ==
    CASE e.e = "save" ->
           IF e.ndim > 2 THEN If(e.err # "", "RefusesManyDimensions")
           ELSE If(e.err = "", "Saves")
      [] e.e = "write" \/ e.e = "hput" -> {}
      [] e.e = "file" -> If(e.lines = s.files[e.f], "Layout")
      [] e.e = "load" ->
           IF e.cplx /\ Odd(s.files[e.f]) THEN If(e.err # "", "RefusesOddColumns")
           ELSE IF e.err # "" THEN {"Loads"}
           ELSE If(TLCEval(Array(s.files[e.f], e.cplx)) = e.a, "ReadsBackSame")
      [] e.e = "hget" -> If(e.err = "" /\ e.a = s.kept[e.f], "HandleReadsBackSame")
      [] e.e = "given" -> If(e.a = e.was, "ArgumentKept")
      [] OTHER -> {"UnknownEvent"}

EndFails(s) == {}
INSTANCE TraceRunner
=============================================================================
