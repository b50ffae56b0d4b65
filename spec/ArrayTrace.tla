------------------------------- MODULE ArrayTrace -------------------------------
(***************************************************************************)
(* Vector spaces of arrays and the inner products of arrays (C27), exact.  *)
(*                                                                         *)
(* begin: wdim, W, wq: the weights are W / wq (wdim 0: none, 1: a          *)
(*   sequence of integers, 2: an array)                                    *)
(* ip, symm: X, Y (columns are vectors), out (times wq)                    *)
(* comb: X, coef, sel (<<-1>>: all columns; from 0 otherwise), out         *)
(* dot: x, y, out                     (inner_product_array_uniform)        *)
(* trapz: grids (times gq), x, y (flat, last dimension fastest), out       *)
(*   (times 2^d gq^d)                                                      *)
(* vector: x, y, k and what a class of vectors makes of x - y, k * x, x * k*)
(***************************************************************************)
EXTENDS Gauss

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}

Start(case) == [n |-> 0, b |-> <<>>]
Step(s, e) == IF e.e = "begin" THEN [n |-> 0, b |-> e] ELSE [s EXCEPT !.n = @ + 1]

Weigh(b, Y) == IF b.wdim = 0 THEN [i \in 1..Rows(Y) |-> VScale(<<b.wq, 0>>, Y[i])]
               ELSE IF b.wdim = 1 THEN [i \in 1..Rows(Y) |-> VScale(b.W[i], Y[i])]
               ELSE MMul(b.W, Y)
Hermitian(b) == IF b.wdim = 1 THEN \A i \in DOMAIN b.W : b.W[i][2] = 0 ELSE b.wdim = 0 \/ Herm(b.W) = b.W
Product(b, X, Y) == MMul(Herm(X), TLCEval(Weigh(b, Y)))

(* twice the weight of every grid point *)
Widths(g) == [i \in 1..Len(g) |-> (IF i < Len(g) THEN g[i + 1] - g[i] ELSE 0) + (IF i > 1 THEN g[i] - g[i - 1] ELSE 0)]
Outer(a, b) == TLCEval([i \in 1..(Len(a) * Len(b)) |-> a[((i - 1) \div Len(b)) + 1] * b[((i - 1) % Len(b)) + 1]])
Measure(grids) == FoldLeft(LAMBDA acc, g : Outer(acc, Widths(g)), <<1>>, grids)
Trapz(e) == LET w == Measure(e.grids) IN CSum([i \in 1..Len(w) |-> CScale(w[i], CMul(CConj(e.x[i]), e.y[i]))])

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "ip" -> If(e.out = Product(s.b, e.X, e.Y), "WeightedProduct")
      [] e.e = "symm" -> If(Hermitian(s.b) => e.out = Product(s.b, e.X, e.X), "SymmetricProduct")
      [] e.e = "comb" -> If(e.out = MMul(e.X, IF e.sel = <<-1>> THEN e.coef ELSE ColsOf(e.coef, [i \in DOMAIN e.sel |-> e.sel[i] + 1])),
                            "LinearCombination")
      [] e.e = "dot" -> If(e.out = Dot(e.x, e.y), "PlainProduct")
      [] e.e = "trapz" -> If(e.out = Trapz(e), "TrapezoidalRule")
      [] e.e = "vector" -> If(e.minus = VSub(e.x, e.y) /\ e.left = VScale(e.k, e.x) /\ e.right = VScale(e.k, e.x), "VectorArithmetic")
      [] e.e = "error" -> {"NoError"}
      [] OTHER -> {"Unknown"}
EndFails(s) == If(s.n > 0, "Result")

INSTANCE TraceRunner
===============================================================================
