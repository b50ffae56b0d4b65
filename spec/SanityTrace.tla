------------------------------ MODULE SanityTrace ------------------------------
(***************************************************************************)
(* The sanity check of user vectors (C29).                                 *)
(*                                                                         *)
(* begin: P workers; hasip: is there an inner product; and the class of    *)
(*   the vector: kind "floats" (an array with the usual operations: well-  *)
(*   behaved, entries arbitrary), or "class": the vector v (Gaussian       *)
(*   integers, in units of the magnitude of the real vector) and how the   *)
(*   operations of its class work:                                         *)
(*     k * x    is   gm k x + om (1, ..., 1)   and turns x into am x + bm  *)
(*     x + y    is   x + ga y + oa (1, ..., 1) and turns x into aa x + ba, *)
(*                                             and y into ao y (into ao ad *)
(*                                             y if it is another object)  *)
(*     <x, y>   kind, w:  "dot" sum of conj(x) w y, "bilinear" without     *)
(*              conjugation, "cubic" sum of conj(x) y y, "affine" dot + 1, *)
(*              "taxi" (sum of |re| + |im|) of x times that of y           *)
(*     small > 0: the faults are of relative size 2 ^ -small, instead of 1 *)
(* out: worker r is back, err is the error raised ("" if none)             *)
(*                                                                         *)
(* Which classes are well-behaved is not decided by following the order of *)
(* operations of the check: nothing may be altered, and the three          *)
(* combinations have to have the inner products they ought to have.        *)
(***************************************************************************)
EXTENDS Gauss, FiniteSets

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Taxi(x) == FoldLeft(LAMBDA a, z : a + Abs(z[1]) + Abs(z[2]), 0, x)

Ip(b, x, y) ==
    CASE b.ip = "dot" -> CSum([i \in DOMAIN x |-> CScale(b.w[i], CMul(CConj(x[i]), y[i]))])
      [] b.ip = "bilinear" -> CSum([i \in DOMAIN x |-> CMul(x[i], y[i])])
      [] b.ip = "cubic" -> CSum([i \in DOMAIN x |-> CMul(CConj(x[i]), CMul(y[i], y[i]))])
      [] b.ip = "affine" -> CAdd(<<1, 0>>, CSum([i \in DOMAIN x |-> CMul(CConj(x[i]), y[i])]))
      [] b.ip = "taxi" -> <<Taxi(x) * Taxi(y), 0>>
Norm2(b, x) == Ip(b, x, x)
Off(k, x) == [i \in DOMAIN x |-> <<k, 0>>]
Mul(b, k, x) == VAdd(VScale(<<b.gm * k, 0>>, x), Off(b.om, x))
Plus(b, x, y) == VAdd(VAdd(x, VScale(<<b.ga, 0>>, y)), Off(b.oa, x))

(* what becomes of the operands *)
AfterMul(b, x) == VAdd(VScale(<<b.am, 0>>, x), Off(b.bm, x))
AfterPlusSelf(b, x) == VAdd(VScale(<<b.aa, 0>>, x), Off(b.ba, x))
AfterPlusSame(b, x) == VScale(<<b.ao, 0>>, x)
AfterPlusOther(b, x) == VScale(<<b.ao * b.ad, 0>>, x)

Touches(b) == b.am # 1 \/ b.bm # 0 \/ b.aa # 1 \/ b.ba # 0 \/ b.ao # 1 \/ b.ad # 1
Altered(b) ==
    LET n == Norm2(b, b.v) IN
    \/ Norm2(b, AfterMul(b, b.v)) # n
    \/ Norm2(b, AfterPlusSelf(b, b.v)) # n
    \/ Norm2(b, AfterPlusSame(b, b.v)) # n
    \/ Norm2(b, AfterPlusOther(b, b.v)) # n
Consistent(b) ==
    LET n == Norm2(b, b.v) IN
    /\ Norm2(b, Mul(b, 2, b.v)) = CScale(4, n)
    /\ Norm2(b, Plus(b, b.v, b.v)) = CScale(4, n)
    /\ Norm2(b, Plus(b, Mul(b, 2, b.v), b.v)) = CScale(9, n)
(* A fault of relative size 2 ^ -small in one of the operations: every inner *)
(* product is a quadratic polynomial of that size, and its first-order term  *)
(* is half the difference between its values at the fault and its mirror     *)
(* image.  A fault that shows at first order has to be reported.             *)
Mirror(b) == [b EXCEPT !.gm = 2 - @, !.om = -@, !.am = 2 - @, !.bm = -@, !.ga = 2 - @, !.oa = -@,
                       !.aa = 2 - @, !.ba = -@, !.ao = 2 - @, !.ad = 2 - @]
Seen(b) == <<Norm2(b, AfterMul(b, b.v)), Norm2(b, AfterPlusSelf(b, b.v)), Norm2(b, AfterPlusSame(b, b.v)),
             Norm2(b, AfterPlusOther(b, b.v)), Norm2(b, Mul(b, 2, b.v)), Norm2(b, Plus(b, b.v, b.v))>>
Verdict(b) == IF ~b.hasip THEN "reject"
              ELSE IF b.kind = "floats" THEN "accept"
              ELSE IF b.small > 0 THEN (IF Seen(b) # Seen(Mirror(b)) THEN "reject" ELSE "free")
              ELSE IF Altered(b) THEN "reject"
              ELSE IF Touches(b) THEN "free"       \* alterations which no inner product shows
              ELSE IF Consistent(b) THEN "accept" ELSE "reject"

Start(case) == [P |-> 0, v |-> "", back |-> {}]
Step(s, e) ==
    CASE e.e = "begin" -> [P |-> e.P, v |-> Verdict(e), back |-> {}]
      [] e.e = "out" -> [s EXCEPT !.back = @ \cup {e.r}]
      [] OTHER -> s
Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "out" -> IF s.v = "accept" THEN If(e.err = "", "WellBehavedPasses")
                        ELSE IF s.v = "reject" THEN If(e.err # "", "FaultIsReported") ELSE {}
      [] e.e = "kept" -> If(e.ok, "VectorUntouched")
      [] e.e = "end" -> If(e.problem = "none", "NoDeadlock") \cup If(s.back = 0..(s.P - 1), "OnEveryWorker")
      [] e.e = "error" -> {"WorkerFailed"}
      [] OTHER -> {"Unknown"}
EndFails(s) == If(s.P > 0, "Result")

INSTANCE TraceRunner
===============================================================================
