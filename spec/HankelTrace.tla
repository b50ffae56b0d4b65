----------------------------- MODULE HankelTrace -----------------------------
(***************************************************************************)
(* Hankel arrays (C22): constant skew diagonals.                           *)
(*                                                                         *)
(* hankel: col, row (sequences of named entries; row = <<>>: not given),   *)
(*   zero: the name of 0, out: the array (rows), shape, err                *)
(* chunks: col, row: sequences of equally shaped blocks (arrays of named   *)
(*   entries), h x w: the shape of a block                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}

(* the entries along the skew diagonals *)
Cont(col, row) == col \o Tail(row)
Width(e) == IF e.given THEN Len(e.row) ELSE Len(e.col)
Vals(e, z) == IF e.given THEN Cont(e.col, e.row) ELSE e.col \o [i \in 1..(Len(e.col) - 1) |-> z]

ZeroBlock(e) == [i \in 1..e.h |-> [j \in 1..e.w |-> e.zero]]

Start(case) == 0
Step(s, e) == s + 1
Fails(s, e) ==
    If(e.err = "", "NoError")
    \cup (IF e.err # "" THEN {} ELSE
    CASE e.e = "hankel" ->
           LET v == Vals(e, e.zero) n == Len(e.col) m == Width(e) IN
           If(e.shape = <<n, m>>, "Shape")
           \cup (IF e.shape # <<n, m>> THEN {} ELSE
                 If(\A i \in 1..n : \A j \in 1..m : e.out[i][j] = v[i + j - 1], "SkewDiagonals"))
      [] e.e = "chunks" ->
           LET v == Vals(e, ZeroBlock(e)) n == Len(e.col) m == Width(e) IN
           If(e.shape = <<n * e.h, m * e.w>>, "Shape")
           \cup (IF e.shape # <<n * e.h, m * e.w>> THEN {} ELSE
                 If(\A i \in 1..(n * e.h) : \A j \in 1..(m * e.w) :
                      e.out[i][j] = v[(i - 1) \div e.h + (j - 1) \div e.w + 1][((i - 1) % e.h) + 1][((j - 1) % e.w) + 1],
                    "BlockSkewDiagonals")))
EndFails(s) == If(s > 0, "Result")

INSTANCE TraceRunner
==============================================================================
