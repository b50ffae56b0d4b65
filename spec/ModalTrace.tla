------------------------------ MODULE ModalTrace ------------------------------
(***************************************************************************)
(* The defining equations of POD (C13), balanced POD (C14), DMD (C15) and  *)
(* total-least-squares DMD (C16), in fixed-point arithmetic.               *)
(*                                                                         *)
(* begin: X, Y (columns are vectors; Y = <<>> if there are none), W the    *)
(*   weights as an array, and whatever is known of the data:               *)
(*   spec/sum: all eigenvalues (descending) of the correlation array that  *)
(*   is truncated; atol, rtol, max (-1: no limit); F, eigs: a map with     *)
(*   Y = F X and its eigenvalues on the data (<<>> if there is none);      *)
(*   A, B, C, steps: the system the snapshots of balanced POD come from    *)
(* pod, bpod, dmd: the results of one method.  Modes come with the         *)
(*   indices (from 1) which were asked for.                                *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
T == 40                     \* tolerances: 1/T of the scale

Desc(d, t) == \A i \in 1..(Len(d) - 1) : d[i] + t >= d[i + 1]
(* how many of the values are kept, by the rules of truncation *)
Kept(spec, atol, rtol, max) ==
    LET n == Cardinality({i \in DOMAIN spec : spec[i] > atol /\ spec[i] > FMul(rtol, spec[1])})
    IN IF max >= 0 /\ max < n THEN max ELSE n
Sum(d) == FoldLeft(LAMBDA a, b : Clamp(a + b), 0, d)
Idx(idx, k) == \A i \in DOMAIN idx : idx[i] \in 1..k

(* X* W Z *)
Ip(s, Xs, Z) == HMul(Xs, MMul(s.W, Z))

(* pairs of requested modes: biorthonormal *)
BiOrth(s, ia, Aa, ib, Bb) ==
    LET G == Ip(s, Aa, Bb) IN
    \A i \in DOMAIN ia : \A j \in DOMAIN ib :
        CNear(G[i][j], IF ia[i] = ib[j] THEN <<S, 0>> ELSE C0, Tol(Aa, T) \div 2 + Tol(Bb, T) \div 2)

Known(s, vals, spec, tol) == /\ Len(vals) <= Len(spec)
                             /\ \A i \in DOMAIN vals : Ab(vals[i] - spec[i]) <= tol

(* eigenvectors of a Hermitian array *)
EigEq(Corr, vecs, vals) == MEq(MMul(Corr, vecs), ColScale(vecs, Real(vals)), T)
Orthonormal(vecs, n) == MNear(HMul(vecs, vecs), MId(n), S \div T)

(* -------------------------------------------------------------- POD *)
PodShape(s, e) ==
    LET k == Len(e.eigvals) m == Cols(s.X) n == Rows(s.X) IN
    /\ Shape(e.eigvecs, m, k) /\ Shape(e.modes, n, Len(e.idx)) /\ Shape(e.coeffs, k, m) /\ Idx(e.idx, k)
    /\ (e.corr = <<>> \/ Shape(e.corr, m, m))
Pod(s, e) ==
    LET k == Len(e.eigvals)
        spec == s.b.spec
        corr == Ip(s, s.X, s.X)
    IN If(k = Kept(spec, s.b.atol, s.b.rtol, -1), "Truncation")
       \cup If(k = 0 \/ Known(s, e.eigvals, spec, S \div T + spec[1] \div 200), "Eigenvalues")
       \cup If(\A i \in DOMAIN e.eigvals : e.eigvals[i] > 0, "Positive")
       \cup If(Desc(e.eigvals, 1), "Descending")
       \cup If(PodShape(s, e), "Selection")
       \cup (IF ~PodShape(s, e) THEN {} ELSE
            If(e.corr = <<>> \/ MEq(e.corr, corr, T), "Correlation")
            \cup If(EigEq(corr, e.eigvecs, e.eigvals), "Eigenvectors")
            \cup If(Orthonormal(e.eigvecs, k), "Eigenvectors")
            \cup If(BiOrth(s, e.idx, e.modes, e.idx, e.modes), "Orthonormal")
            \cup (LET P == Ip(s, e.modes, s.X)                   \* coefficients of the data on the modes
                      en(i) == FoldLeft(LAMBDA a, z : Clamp(a + Mag2(z)), 0, P[i])
                  IN If(\A i \in DOMAIN e.idx : MNear(<<P[i]>>, <<e.coeffs[e.idx[i]]>>, Tol(e.coeffs, T)), "Coefficients")
                     \cup If(\A i \in DOMAIN e.idx : Ab(en(i) - e.eigvals[e.idx[i]]) <= S \div T + e.eigvals[e.idx[i]] \div T, "Energy"))
            \* the data, or its best approximation: the energy of what is left is that of the dropped values
            \cup (IF e.idx # [i \in 1..k |-> i] THEN {} ELSE
                  LET R == MSub(s.X, MMul(e.modes, e.coeffs))
                      G == Ip(s, R, R)
                      left == Sum([i \in 1..Cols(s.X) |-> G[i][i][1]])
                      drop == Sum([i \in (1..Len(spec)) |-> IF i > k THEN spec[i] ELSE 0])
                  IN If(Ab(left - drop) <= S \div 20 + drop \div T + spec[1] \div 400, "Reproduces")))

(* ------------------------------------------------------------- BPOD *)
BpodShape(s, e) ==
    LET k == Len(e.sv) IN
    /\ Shape(e.L, Cols(s.Y), k) /\ Shape(e.R, Cols(s.X), k) /\ Shape(e.dmodes, Rows(s.X), Len(e.didx))
    /\ Shape(e.amodes, Rows(s.X), Len(e.aidx)) /\ Shape(e.dco, k, Cols(s.X)) /\ Shape(e.aco, k, Cols(s.Y))
    /\ Idx(e.didx, k) /\ Idx(e.aidx, k) /\ Shape(e.H, Cols(s.Y), Cols(s.X))
RECURSIVE Markov(_, _, _, _)
Markov(A, x, C, n) == IF n = 0 THEN <<>> ELSE <<MMul(C, x)>> \o Markov(A, MMul(A, x), C, n - 1)
Bpod(s, e) ==
    LET k == Len(e.sv)
        H == Ip(s, s.Y, s.X)
        spec == s.b.spec
    IN If(k = Kept(spec, s.b.atol, s.b.rtol, -1), "Truncation")
       \cup If(k = 0 \/ Known(s, e.sv, spec, S \div T + spec[1] \div 200), "SingularValues")
       \cup If(Desc(e.sv, 1), "Descending")
       \cup If(BpodShape(s, e), "Selection")
       \cup (IF ~BpodShape(s, e) THEN {} ELSE
            If(MEq(e.H, H, T), "HankelArray")
            \cup If(MEq(MMul(H, e.R), ColScale(e.L, Real(e.sv)), T) /\ MEq(HMul(H, e.L), ColScale(e.R, Real(e.sv)), T),
                    "SingularVectors")
            \cup If(Orthonormal(e.L, k) /\ Orthonormal(e.R, k), "SingularVectors")
            \cup If(BiOrth(s, e.aidx, e.amodes, e.didx, e.dmodes), "BiOrthonormal")
            \cup (LET root == [i \in 1..k |-> FSqrt(e.sv[i])] IN
                  If(MEq(ColScale(e.dmodes, Real([i \in DOMAIN e.didx |-> root[e.didx[i]]])), MMul(s.X, ColsOf(e.R, e.didx)), T),
                     "DirectModes")
                  \cup If(MEq(ColScale(e.amodes, Real([i \in DOMAIN e.aidx |-> root[e.aidx[i]]])), MMul(s.Y, ColsOf(e.L, e.aidx)), T),
                     "AdjointModes"))
            \cup (LET P == Ip(s, e.amodes, s.X) Q == Ip(s, e.dmodes, s.Y) IN
                  If(\A i \in DOMAIN e.aidx : MNear(<<P[i]>>, <<e.dco[e.aidx[i]]>>, Tol(e.dco, T)), "Coefficients")
                  \cup If(\A i \in DOMAIN e.didx : MNear(<<Q[i]>>, <<e.aco[e.didx[i]]>>, Tol(e.aco, T)), "Coefficients"))
            \cup (IF s.b.full /\ e.didx = [i \in 1..k |-> i] /\ e.aidx = e.didx
                  THEN LET Ar == Ip(s, e.amodes, MMul(s.A, e.dmodes))
                           Br == Ip(s, e.amodes, s.B)
                           Cr == MMul(s.C, e.dmodes)
                           M1 == Markov(s.A, s.B, s.C, s.b.steps)
                           M2 == Markov(Ar, Br, Cr, s.b.steps)
                       IN If(\A i \in DOMAIN M1 : MEq(M2[i], M1[i], 20), "ImpulseResponse")
                  ELSE {}))

(* -------------------------------------------------------------- DMD *)
(* shape of the results; X' and Y' are the (projected) data *)
DmdShape(s, e) ==
    LET k == Len(e.eigs) n == Rows(s.X) m == Cols(s.X) IN
    /\ Len(e.cev) = k /\ Shape(e.cvec, m, k) /\ Shape(e.R, k, k) /\ Shape(e.L, k, k)
    /\ Shape(e.exact, n, Len(e.xidx)) /\ Shape(e.proj, n, Len(e.pidx)) /\ Shape(e.adj, n, Len(e.aidx))
    /\ Shape(e.co, k, m) /\ Shape(e.adv, k, m) /\ Len(e.spec) = k
    /\ Idx(e.xidx, k) /\ Idx(e.pidx, k) /\ Idx(e.aidx, k)
    /\ (e.tls => Shape(e.svec, m, Len(e.sev)))

Common(s, e, X, Y) ==
    LET k == Len(e.eigs)
        U == MMul(X, e.cvec)                                     \* orthogonal, norms^2 = cev
        UP == RowDiv(Ip(s, U, e.proj), e.cev)                    \* coefficients in terms of U
        UA == RowDiv(Ip(s, U, e.adj), e.cev)
        G == Ip(s, e.adj, X)
        Ga == Ip(s, e.adj, Y)
        root == TLCEval([i \in 1..k |-> FSqrt(e.cev[i])])
        all == [i \in 1..k |-> i]
    IN If(MEq(MMul(U, UP), e.proj, T), "ProjModesInSpan")
       \cup If(MEq(MMul(U, UA), e.adj, T), "AdjointModesInSpan")
       \cup If(MEq(RowScale(UP, root), ColsOf(e.R, e.pidx), T), "LowOrderEigenvectors")
       \cup If(MEq(RowScale(UA, root), ColsOf(e.L, e.aidx), T), "LowOrderEigenvectors")
       \cup If(MNear(HMul(e.L, e.R), MId(k), Tol(e.L, T)), "LowOrderEigenvectors")
       \cup If(BiOrth(s, e.aidx, e.adj, e.pidx, e.proj), "BiOrthonormal")
       \* eigenvalue times exact mode = the data advanced along the projected mode
       \cup (LET YP == MMul(MMul(Y, e.cvec), UP) IN
             If(\A i \in DOMAIN e.xidx : \A j \in DOMAIN e.pidx : e.xidx[i] = e.pidx[j] =>
                   MEq(ColScale(ColsOf(e.exact, <<i>>), <<e.eigs[e.xidx[i]]>>), ColsOf(YP, <<j>>), T), "ExactModes"))
       \* and the projection of the exact mode is the projected mode
       \cup (LET UE == RowDiv(Ip(s, U, e.exact), e.cev) IN
             If(\A i \in DOMAIN e.xidx : \A j \in DOMAIN e.pidx : e.xidx[i] = e.pidx[j] =>
                   MEq(ColsOf(MMul(U, UE), <<i>>), ColsOf(e.proj, <<j>>), T), "Eigenvalues"))
       \cup If(\A i \in DOMAIN e.aidx : MNear(<<G[i]>>, <<e.co[e.aidx[i]]>>, Tol(e.co, T)), "Coefficients")
       \cup If(\A i \in DOMAIN e.aidx : MNear(<<Ga[i]>>, <<e.adv[e.aidx[i]]>>, Tol(e.adv, T)), "AdvancedCoefficients")
       \cup If(\A i \in 1..k : Ab(FMul(e.spec[i], e.spec[i]) - Mag2(e.co[i][1])) <= S \div T + Mag2(e.co[i][1]) \div T
                               /\ e.spec[i] >= -1, "SpectralCoefficients")
       \* all modes: the data, projected on what is kept, is reproduced
       \cup (IF e.pidx = all
             THEN If(MEq(MMul(e.proj, e.co), MMul(U, RowDiv(Ip(s, U, X), e.cev)), T), "Reproduces")
                  \cup If(MEq(MMul(e.proj, e.adv), MMul(U, RowDiv(Ip(s, U, Y), e.cev)), T), "Reproduces")
             ELSE {})

(* the map behind the data: its eigenvalues, its eigenvectors, and all of the data *)
Recovers(s, e) ==
    IF ~s.b.full THEN {} ELSE
    LET d == s.b.eigs  near(a, b) == CNear(a, b, S \div T) IN
    If(/\ Len(e.eigs) = Len(d)
       /\ \A i \in DOMAIN d : \E j \in DOMAIN e.eigs : near(e.eigs[j], d[i])
       /\ \A j \in DOMAIN e.eigs : \E i \in DOMAIN d : near(e.eigs[j], d[i]), "EigenvaluesOfTheMap")
    \cup If(\A p \in {<<e.exact, e.xidx>>, <<e.proj, e.pidx>>} :
              MEq(MMul(s.F, p[1]), ColScale(p[1], [i \in DOMAIN p[2] |-> e.eigs[p[2][i]]]), T), "EigenvectorsOfTheMap")
    \cup (IF e.pidx = [i \in 1..Len(e.eigs) |-> i]
          THEN If(MEq(MMul(e.proj, e.co), s.X, T) /\ MEq(MMul(e.proj, e.adv), s.Y, T), "ReproducesAll") ELSE {})

Dmd(s, e) ==
    LET corr == Ip(s, s.X, s.X)
        cross == Ip(s, s.X, s.Y)
        acorr == Ip(s, s.Y, s.Y)
        sumc == MAdd(corr, acorr)
        k == Len(e.eigs)
        spec == s.b.spec
        P == IF e.tls THEN MMul(e.svec, Herm(e.svec)) ELSE <<>>
        X == IF e.tls THEN MMul(s.X, P) ELSE s.X
        Y == IF e.tls THEN MMul(s.Y, P) ELSE s.Y
        pc == IF e.tls THEN Ip(s, X, X) ELSE corr
    IN If(k = Kept(spec, s.b.atol, s.b.rtol, s.b.max), "Truncation")
       \cup If(DmdShape(s, e), "Selection")
       \cup (IF ~DmdShape(s, e) THEN {} ELSE
            If(k = 0 \/ Known(s, e.cev, spec, S \div T + spec[1] \div 200), "CorrelationEigenvalues")
            \cup If(Desc(e.cev, 1), "Descending")
            \cup If(\A i \in 1..k : e.cev[i] > 0, "Positive")
            \cup (IF k = 0 \/ \E i \in 1..k : e.cev[i] <= 0 THEN {} ELSE
                 If(e.corr = <<>> \/ MEq(e.corr, corr, T), "Correlation")
                 \cup If(e.cross = <<>> \/ MEq(e.cross, cross, T), "Correlation")
                 \cup (IF ~e.tls THEN {} ELSE
                      If(e.acorr = <<>> \/ MEq(e.acorr, acorr, T), "Correlation")
                      \cup If(e.sumc = <<>> \/ MEq(e.sumc, sumc, T), "Correlation")
                      \cup If(e.projc = <<>> \/ MEq(e.projc, pc, T), "ProjectedCorrelation")
                      \cup If(Len(e.sev) = Kept(s.b.sum, s.b.atol, s.b.rtol, s.b.max), "Truncation")
                      \cup If(Known(s, e.sev, s.b.sum, S \div T + s.b.sum[1] \div 200), "CorrelationEigenvalues")
                      \cup If(EigEq(sumc, e.svec, e.sev) /\ Orthonormal(e.svec, Len(e.sev)), "Eigenvectors"))
                 \cup If(EigEq(pc, e.cvec, e.cev) /\ Orthonormal(e.cvec, k), "Eigenvectors")
                 \cup Common(s, e, X, Y)
                 \cup Recovers(s, e)))

(* results of several methods agree: eigenvalues, and the lengths of the modes *)
Norm2(s, Ms, i) == LET v == ColsOf(Ms, <<i>>) IN Ip(s, v, v)[1][1][1]
Agree(s, a, b) ==
    IF ~DmdShape(s, a) \/ ~DmdShape(s, b) THEN {} ELSE
    If(/\ Len(a.eigs) = Len(b.eigs)
       /\ \A i \in DOMAIN a.pidx : \E k \in DOMAIN b.eigs :
             /\ CNear(a.eigs[a.pidx[i]], b.eigs[k], S \div T)
             /\ \A j \in DOMAIN b.pidx : b.pidx[j] = k =>
                   LET x == Norm2(s, a.proj, i) y == Norm2(s, b.proj, j) IN Ab(x - y) <= S \div T + x \div T,
       "MethodsAgree")

(* wild values: the rest cannot be evaluated sensibly *)
Mats(e) == CASE e.e = "pod" -> <<e.eigvecs, e.modes, e.coeffs, e.corr, <<Real(e.eigvals)>>>>
             [] e.e = "bpod" -> <<e.L, e.R, e.dmodes, e.amodes, e.dco, e.aco, e.H, <<Real(e.sv)>>>>
             [] e.e = "dmd" -> <<e.cvec, e.R, e.L, e.exact, e.proj, e.adj, e.co, e.adv, e.corr, e.cross,
                                 <<Real(e.cev)>>, <<Real(e.spec)>>, <<e.eigs>>>>
                               \o (IF e.tls THEN <<e.acorr, e.sumc, e.projc, e.svec, <<Real(e.sev)>>>> ELSE <<>>)
Sane(e) == \A i \in DOMAIN Mats(e) : Small(Mats(e)[i], 900000000)

Start(case) == [b |-> <<>>, X |-> <<>>, Y |-> <<>>, W |-> <<>>, F |-> <<>>, A |-> <<>>, B |-> <<>>, C |-> <<>>, first |-> <<>>]
Step(s, e) ==
    CASE e.e = "begin" -> [b |-> e, X |-> e.X, Y |-> e.Y, W |-> e.W, F |-> e.F, A |-> e.A, B |-> e.B, C |-> e.C,
                           first |-> <<>>]
      [] e.e = "dmd" -> IF s.first = <<>> /\ Sane(e) THEN [s EXCEPT !.first = <<e>>] ELSE s
      [] OTHER -> s
Fails(s, e) ==
    CASE e.e = "begin" -> If(e.F = <<>> \/ MEq(MMul(e.F, e.X), e.Y, T), "BadData")
      [] e.e \in {"pod", "bpod", "dmd"} ->
            IF ~Sane(e) THEN {"Finite"}
            ELSE (CASE e.e = "pod" -> Pod(s, e)
                   [] e.e = "bpod" -> Bpod(s, e)
                   [] e.e = "dmd" -> Dmd(s, e) \cup (IF s.first = <<>> THEN {}  ELSE Agree(s, s.first[1], e)))
      [] e.e = "error" -> {"NoError"}
      [] e.e = "end" -> If(e.problem = "none", "NoDeadlock")
      [] OTHER -> {"UnknownEvent"}
EndFails(s) == {}
INSTANCE TraceRunner
=============================================================================
