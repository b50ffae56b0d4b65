------------------------------- MODULE UtilTrace -------------------------------
(***************************************************************************)
(* The elementary helpers (C31): equality, shapes, lists, files, random    *)
(* systems, vector arithmetic.  Values are records [t, s, d]: type, shape, *)
(* elements; names are sequences of character codes.                       *)
(*                                                                         *)
(* eq:      a, b, res, ne  (ne: what != says, "-" where it is not asked)   *)
(* space:   a, b: a pair of spaces (type and parts), res, ne               *)
(* shape:   what (row, col), a, out                                        *)
(* flat:    a (list of lists), out;  sums: a, b, out, err                  *)
(* iter:    iterable, out (same, wrapped, other)                           *)
(* files:   names, ext (<<>>: none), out                                   *)
(* members: data (names of the attributes), out, same (values are those)   *)
(* system:  what (drss, rss), n, m, p, A, B, C: shapes; eigs (fixed point) *)
(* vector:  a, b, k, sub, left, right (a - b, k * a, a * k)                *)
(* block:   a, b: lists of vectors (Gaussian integers), shape, out: all    *)
(*          their inner products                                           *)
(* script:  x, y, res: what a script in which z = x + y computes as z * x  *)
(***************************************************************************)
EXTENDS Gauss, FiniteSets

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
S == 8192
Ab(x) == IF x < 0 THEN -x ELSE x

Equal(a, b) == a.t = b.t /\ a.s = b.s /\ a.d = b.d
RECURSIVE Concat(_)
Concat(a) == IF a = <<>> THEN <<>> ELSE Head(a) \o Concat(Tail(a))

Shaped(e) ==
    LET a == e.a n == Len(a.d) IN
    /\ e.out.d = a.d
    /\ e.out.s = (IF Len(a.s) >= 2 THEN a.s ELSE IF e.what = "row" THEN <<1, n>> ELSE <<n, 1>>)

Ends(name, ext) == Len(ext) <= Len(name) /\ SubSeq(name, Len(name) - Len(ext) + 1, Len(name)) = ext

Stable(e) == \A i \in DOMAIN e.eigs :
    /\ Ab(e.eigs[i][2]) <= S \div 200
    /\ IF e.what = "rss" THEN e.eigs[i][1] <= S \div 200 ELSE Ab(e.eigs[i][1]) < S

Start(case) == 0
Step(s, e) == s + 1
Fails(s, e) ==
    CASE e.e = "error" -> {"NoError"}
      [] e.e \in {"eq", "space"} ->
           If(e.res = Equal(e.a, e.b), "Equality") \cup If(e.ne = "-" \/ e.ne = (IF Equal(e.a, e.b) THEN "no" ELSE "yes"), "Inequality")
      [] e.e = "shape" -> If(Shaped(e), "TwoDimensional")
      [] e.e = "flat" -> If(e.out = Concat(e.a), "Flattened")
      [] e.e = "sums" ->
           IF Len(e.a) # Len(e.b) THEN If(e.err # "", "LengthsDiffer")
           ELSE If(e.err = "" /\ e.out = [i \in DOMAIN e.a |-> e.a[i] + e.b[i]], "Sums")
      [] e.e = "iter" -> If(e.out = (IF e.iterable THEN "same" ELSE "wrapped"), "Iterable")
      [] e.e = "files" ->
           LET want == {e.names[i] : i \in {j \in DOMAIN e.names : Ends(e.names[j], e.ext)}} IN
           If({e.out[i] : i \in DOMAIN e.out} = want /\ Len(e.out) = Cardinality(want), "Files")
      [] e.e = "members" ->
           If({e.out[i] : i \in DOMAIN e.out} = {e.data[i] : i \in DOMAIN e.data} /\ e.same, "DataMembers")
      [] e.e = "system" ->
           If(e.A = <<e.n, e.n>> /\ e.B = <<e.n, e.m>> /\ e.C = <<e.p, e.n>>, "Dimensions")
           \cup If(Len(e.eigs) = e.n /\ Stable(e), "RealAndStable")
      [] e.e = "vector" ->
           If(e.sub = [i \in DOMAIN e.a |-> e.a[i] - e.b[i]], "Difference")
           \cup If(e.left = [i \in DOMAIN e.a |-> e.k * e.a[i]] /\ e.right = e.left, "Scaling")
      [] e.e = "block" ->
           If(e.shape = <<Len(e.a), Len(e.b)>> /\ Len(e.out) = Len(e.a) /\ \A i \in DOMAIN e.a :
              e.out[i] = [j \in DOMAIN e.b |-> CSum([k \in DOMAIN e.a[i] |-> CMul(CConj(e.a[i][k]), e.b[j][k])])], "Block")
      [] e.e = "script" -> If(e.res = (e.x + e.y) * e.x, "Script")
      [] OTHER -> {"Unknown"}
EndFails(s) == If(s > 0, "Result")

INSTANCE TraceRunner
===============================================================================
