------------------------------ MODULE CostTrace ------------------------------
(***************************************************************************)
(* How much work each worker does for one distributed operation, against   *)
(* the cost the documentation promises: the work is divided, not repeated. *)
(*                                                                         *)
(*   call   op, P workers, share (vectors a worker may hold), and the      *)
(*          handles: rows and cols ("ip", "symm"), or basis and number of  *)
(*          sums ("lc")                                                    *)
(*   work   worker r: number of vectors read, scalings and additions, and  *)
(*          the inner products <<h1, h2, how often>> by stored vectors     *)
(*   end                                                                   *)
(*                                                                         *)
(* The documented numbers are rounded up to whole vectors, and every       *)
(* worker may do a few operations more (timing, probing the data type).    *)
(* Ring.tla and Symm.tla check these bounds on the algorithms for all      *)
(* small parameters.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES c, l, st, bad

Probes == 4

CeilDiv(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SumOf(s, F(_)) == FoldLeft(LAMBDA a, x: a + F(x), 0, s)

(* stationary and travelling vectors (the shorter list stays) *)
Stay(s) == IF s.op = "lc" THEN s.ns ELSE Min2(Len(s.rows), Len(s.cols))
Travel(s) == IF s.op = "lc" THEN Len(s.basis) ELSE Max2(Len(s.rows), Len(s.cols))

(* num gets / worker, documented with max - 2 vectors per group *)
ReadBound(s) ==
    (IF s.op = "lc" THEN 0 ELSE CeilDiv(Stay(s), s.P))
    + CeilDiv(Travel(s), s.P) * CeilDiv(CeilDiv(Stay(s), s.P), s.share - 2)
    + Probes

(* num inner products, scalings / worker *)
PairBound(s) == CeilDiv(Stay(s), s.P) * Travel(s) + Probes

(* Symmetric arrays: all workers together, triangle plus the pairs of       *)
(* opposite workers computed from either side                               *)
SymmBound(s) ==
    LET n == Len(s.rows) IN
    (n * (n + 1)) \div 2
    + (IF s.P = 1 THEN 0 ELSE CeilDiv(n * CeilDiv(n, s.P), 2))
    + Probes * s.P

Norm(p) == IF p[1] <= p[2] THEN <<p[1], p[2]>> ELSE <<p[2], p[1]>>
Count(seq, h) == Cardinality({i \in DOMAIN seq : seq[i] = h})

(* how many elements of the array belong to each pair of stored vectors *)
Wanted(rows, cols) ==
    LET hs == TLCEval({rows[i] : i \in DOMAIN rows} \cup {cols[i] : i \in DOMAIN cols})
        cr == TLCEval([h \in hs |-> Count(rows, h)])
        cc == TLCEval([h \in hs |-> Count(cols, h)])
    IN [p \in hs |-> [q \in hs |-> IF p = q THEN cr[p] * cc[p]
                                    ELSE IF p < q THEN cr[p] * cc[q] + cr[q] * cc[p] ELSE 0]]

(* Inner products taken so far: left = elements of each pair still wanted,  *)
(* extra = inner products beyond those                                      *)
Take(s, ps) ==
    FoldLeft(LAMBDA a, p:
               LET q == Norm(p)
                   w == IF q[1] \in DOMAIN a.left /\ q[2] \in DOMAIN a.left THEN a.left[q[1]][q[2]] ELSE 0
               IN IF w >= p[3] THEN [a EXCEPT !.left[q[1]][q[2]] = w - p[3]]
                  ELSE IF w = 0 THEN [a EXCEPT !.extra = @ + p[3]]
                  ELSE [a EXCEPT !.left[q[1]][q[2]] = 0, !.extra = @ + p[3] - w],
             [left |-> s.left, extra |-> s.extra], ps)

Start(case) == [op |-> "none", P |-> 0, left |-> <<>>, extra |-> 0, total |-> 0, workers |-> {}]

Step(s, e) ==
    CASE e.e = "call" ->
           [op |-> e.op, P |-> e.P, share |-> e.share, rows |-> e.rows, cols |-> e.cols,
            basis |-> e.basis, ns |-> e.ns,
            left |-> IF e.op = "ip" THEN TLCEval(Wanted(e.rows, e.cols)) ELSE <<>>, extra |-> 0, total |-> 0, workers |-> {}]
      [] e.e = "work" ->
           LET t == TLCEval(IF s.op = "ip" THEN Take(s, e.pairs) ELSE [left |-> <<>>, extra |-> 0]) IN
           [s EXCEPT !.left = t.left, !.extra = t.extra,
                     !.total = @ + SumOf(e.pairs, LAMBDA p: p[3]),
                     !.workers = @ \cup {e.r}]
      [] OTHER -> s

If(cond, name) == IF cond THEN {} ELSE {name}

Fails(s, e) ==
    CASE e.e = "call" -> {}
      [] e.e = "work" ->
           If(e.reads <= ReadBound(s), "ReadsAsDocumented")
           \cup (IF s.op = "lc"
                 THEN If(e.scales <= PairBound(s) /\ e.adds <= PairBound(s), "OperationsAsDocumented")
                 ELSE If(SumOf(e.pairs, LAMBDA p: p[3]) <= PairBound(s), "OperationsAsDocumented"))
      [] e.e = "end" ->
           If(s.op = "ip" => s.extra <= Probes * s.P, "NothingTwice")
           \cup If(s.op = "symm" => s.total <= SymmBound(s), "OnlyTheTriangle")
           \cup If(Cardinality(s.workers) = s.P, "EveryWorkerReturns")
      [] e.e = "error" -> {"NoError"}
      [] OTHER -> {"UnknownEvent"}

EndFails(s) == {}

INSTANCE TraceRunner
=============================================================================
