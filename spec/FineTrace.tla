------------------------------ MODULE FineTrace ------------------------------
(***************************************************************************)
(* The defining equations of the results of the decompositions, models and *)
(* matrix functions once more, to about nine digits (Fine.tla): the other  *)
(* trace specifications decide what the results are, this one that they    *)
(* are not merely about right.                                             *)
(*                                                                         *)
(* fine: kind, m (the arrays of the case and of the result, by name; M and *)
(*   N are sequences of arrays), has (what else is there, or holds)        *)
(***************************************************************************)
EXTENDS Fine, FiniteSets

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
P == 28                     \* binary places of agreement

RECURSIVE Sizes(_)
Sizes(s) == IF s = <<>> THEN 1 ELSE Most(Size(s[1]), Sizes(Tail(s)))
(* the product of the arrays of the left is that of the right *)
Law(left, right, name) ==
    LET A == TLCEval(Prod(left)) B == TLCEval(Prod(right))
        s == Most(Most(Sizes(left), Sizes(right)), Most(Size(A), Size(B)))
    IN If(CloseTo(A, B, s, P), name)
(* a sum of two products *)
Law2(left1, left2, right, name) ==
    LET A == TLCEval(Add(Prod(left1), Prod(left2))) B == TLCEval(Prod(right))
        s == Most(Most(Sizes(left1), Sizes(left2)), Most(Sizes(right), Size(B)))
    IN If(CloseTo(A, B, s, P), name)

(* C A^k B *)
RECURSIVE Powers(_, _, _)
Powers(A, X, n) == IF n = 0 THEN <<>> ELSE <<X>> \o Powers(A, TLCEval(Mul(A, X)), n - 1)
Response(A, B, C, Ms, name) ==
    LET X == Powers(A, B, Len(Ms)) IN UNION {Law(<<C, X[k]>>, <<Ms[k]>>, name) : k \in 1..Len(Ms)}

(* K: rows of the coefficients of the modes given, E: all eigenvalues, Eu: those of the modes given,
   G: columns of 1 / sqrt(E) for them *)
Pod(m, has) ==
    Law(<<Herm(m.X), m.W, m.X, m.V>>, <<m.V, m.E>>, "Eigenvectors")
    \cup Law(<<Herm(m.V), m.V>>, <<Id(Cols(m.V))>>, "Eigenvectors")
    \cup Law(<<m.X, m.V, m.G>>, <<m.U>>, "Modes")
    \cup Law(<<Herm(m.U), m.W, m.X>>, <<m.K>>, "Coefficients")
    \cup (IF "H" \in has THEN Law(<<Herm(m.X), m.W, m.X>>, <<m.H>>, "Correlation") ELSE {})
    \cup (IF "distinct" \in has
          THEN Law(<<Herm(m.U), m.W, m.U>>, <<Id(Cols(m.U))>>, "Orthonormal")
               \cup Law(<<m.K, Herm(m.K)>>, <<m.Eu>>, "Energy")
          ELSE {})
(* Gd, Ga: columns of 1 / sqrt(S) for the direct and adjoint modes given, Ka, Kd: rows of the coefficients for them *)
Bpod(m, has) ==
    Law(<<Herm(m.Y), m.W, m.X>>, <<m.H>>, "HankelArray")
    \cup Law(<<m.H, m.R>>, <<m.L, m.S>>, "SingularVectors")
    \cup Law(<<Herm(m.H), m.L>>, <<m.R, m.S>>, "SingularVectors")
    \cup Law(<<Herm(m.L), m.L>>, <<Id(Cols(m.L))>>, "SingularVectors")
    \cup Law(<<Herm(m.R), m.R>>, <<Id(Cols(m.R))>>, "SingularVectors")
    \cup Law(<<m.X, m.R, m.Gd>>, <<m.D>>, "DirectModes")
    \cup Law(<<m.Y, m.L, m.Ga>>, <<m.A>>, "AdjointModes")
    \cup Law(<<Herm(m.A), m.W, m.X>>, <<m.Ka>>, "Coefficients")
    \cup Law(<<Herm(m.D), m.W, m.Y>>, <<m.Kd>>, "Coefficients")
(* Q: the projection of total-least-squares DMD (the identity otherwise); E: eigenvalues of the correlations; *)
(* Gp, Ga, Gx: columns of R (or L) / sqrt(E) for the projected, adjoint, exact modes Pr, Ad, Ex; Lx: eigenvalues of Ex *)
Dmd(m, has) ==
    LET XQ == TLCEval(Mul(m.X, m.Q)) YQ == TLCEval(Mul(m.Y, m.Q)) IN
    Law(<<Herm(XQ), m.W, XQ, m.V>>, <<m.V, m.E>>, "Eigenvectors")
    \cup Law(<<Herm(m.V), m.V>>, <<Id(Cols(m.V))>>, "Eigenvectors")
    \cup Law(<<Herm(m.L), m.R>>, <<Id(Cols(m.R))>>, "LowOrderEigenvectors")
    \cup Law(<<XQ, m.V, m.Gp>>, <<m.Pr>>, "LowOrderEigenvectors")
    \cup Law(<<XQ, m.V, m.Ga>>, <<m.Ad>>, "LowOrderEigenvectors")
    \cup Law(<<YQ, m.V, m.Gx>>, <<m.Ex, m.Lx>>, "ExactModes")
    \cup Law(<<Herm(m.V), Herm(XQ), m.W, m.Ex>>, <<m.E, m.Gx>>, "Eigenvalues")
    \cup Law(<<Herm(m.Ad), m.W, XQ>>, <<m.Ka>>, "Coefficients")
    \cup Law(<<Herm(m.Ad), m.W, YQ>>, <<m.Kb>>, "AdvancedCoefficients")
    \cup (IF "H" \in has THEN Law(<<Herm(m.X), m.W, m.X>>, <<m.H>>, "Correlation") ELSE {})
    \cup (IF "Hc" \in has THEN Law(<<Herm(m.X), m.W, m.Y>>, <<m.Hc>>, "Correlation") ELSE {})
    \cup (IF "tls" \in has
          THEN Law2(<<Herm(m.X), m.W, m.X, m.Vs>>, <<Herm(m.Y), m.W, m.Y, m.Vs>>, <<m.Vs, m.Es>>, "Eigenvectors")
               \cup Law(<<Herm(m.Vs), m.Vs>>, <<Id(Cols(m.Vs))>>, "Eigenvectors")
               \cup Law(<<m.Vs, Herm(m.Vs)>>, <<m.Q>>, "Eigenvectors")
          ELSE {})
    \cup (IF "F" \in has THEN Law(<<m.F, m.Ex>>, <<m.Ex, m.Lx>>, "EigenvectorsOfTheMap") ELSE {})
(* G, Qc: 1 / sqrt and sqrt of the singular values (as many columns as there are states), T, Q: transposed; *)
(* Eb, Ec: the first inputs and outputs *)
Era(m, has) ==
    Law(<<m.H, m.R>>, <<m.L, m.S>>, "SingularVectors")
    \cup Law(<<Herm(m.H), m.L>>, <<m.R, m.S>>, "SingularVectors")
    \cup Law(<<Herm(m.L), m.L>>, <<Id(Cols(m.L))>>, "SingularVectors")
    \cup Law(<<Herm(m.R), m.R>>, <<Id(Cols(m.R))>>, "SingularVectors")
    \cup Law(<<m.T, Herm(m.L), m.H2, m.R, m.G>>, <<m.A>>, "Realization")
    \cup Law(<<m.Q, Herm(m.R), m.Eb>>, <<m.B>>, "Realization")
    \cup Law(<<m.Ec, m.L, m.Qc>>, <<m.C>>, "Realization")
Svd(m, has) ==
    Law(<<m.A, m.V>>, <<m.U, m.S>>, "SingularVectors")
    \cup Law(<<Herm(m.A), m.U>>, <<m.V, m.S>>, "SingularVectors")
    \cup Law(<<Herm(m.U), m.U>>, <<Id(Cols(m.U))>>, "Orthonormal")
    \cup Law(<<Herm(m.V), m.V>>, <<Id(Cols(m.V))>>, "Orthonormal")
Eigh(m, has) ==
    Law(<<m.A, m.V>>, <<m.V, m.S>>, "Eigenvectors")
    \cup Law(<<Herm(m.V), m.V>>, <<Id(Cols(m.V))>>, "Orthonormal")
Biorth(m, has) ==
    Law(<<m.A, m.R>>, <<m.R, m.S>>, "RightEigenvectors")
    \cup Law(<<Herm(m.L), m.A>>, <<m.S, Herm(m.L)>>, "LeftEigenvectors")
    \cup Law(<<Herm(m.L), m.R>>, <<Id(Cols(m.R))>>, "BiOrthonormal")
Balanced(m, has) ==
    Law2(<<m.A, m.S, Herm(m.A)>>, <<m.B, Herm(m.B)>>, <<m.S>>, "ControllabilityGramian")
    \cup Law2(<<Herm(m.A), m.S, m.A>>, <<Herm(m.C), m.C>>, <<m.S>>, "ObservabilityGramian")
    \cup Response(m.A, m.B, m.C, m.M, "ImpulseResponse")
Model(m, has) == Response(m.A, m.B, m.C, m.M, "ImpulseResponse")
(* Y, X: the bases, Z: the argument, R: the result *)
Galerkin(m, has) ==
    IF "orth" \in has THEN Law(<<Herm(m.Y), m.W, m.Z>>, <<m.R>>, "Reduced")
    ELSE Law(<<Herm(m.Y), m.W, m.X, m.R>>, <<Herm(m.Y), m.W, m.Z>>, "Reduced")
Derivs(m, has) == Law2(<<m.Y>>, <<Minus(m.X)>>, <<m.R, m.Dt>>, "Derivatives")
Same(m, has) == UNION {Law(<<m.M[k]>>, <<m.N[k]>>, "Values") : k \in DOMAIN m.M}

Set(s) == {s[i] : i \in DOMAIN s}
Start(case) == <<>>
Step(s, e) == <<>>
Fails(s, e) ==
    CASE e.e = "fine" ->
           (CASE e.kind = "pod" -> Pod(e.m, Set(e.has))
              [] e.kind = "bpod" -> Bpod(e.m, Set(e.has))
              [] e.kind = "dmd" -> Dmd(e.m, Set(e.has))
              [] e.kind = "svd" -> Svd(e.m, Set(e.has))
              [] e.kind = "eigh" -> Eigh(e.m, Set(e.has))
              [] e.kind = "biorth" -> Biorth(e.m, Set(e.has))
              [] e.kind = "balanced" -> Balanced(e.m, Set(e.has))
              [] e.kind = "model" -> Model(e.m, Set(e.has))
              [] e.kind = "galerkin" -> Galerkin(e.m, Set(e.has))
              [] e.kind = "derivs" -> Derivs(e.m, Set(e.has))
              [] e.kind = "era" -> Era(e.m, Set(e.has))
              [] e.kind = "ortho" -> Law(<<Herm(e.m.U), e.m.W, e.m.U>>, <<Id(Cols(e.m.U))>>, "Orthonormal")
              [] e.kind = "same" -> Same(e.m, Set(e.has))
              [] OTHER -> {"UnknownKind"})
      [] OTHER -> {"UnknownEvent"}
EndFails(s) == {}
INSTANCE TraceRunner
==============================================================================
