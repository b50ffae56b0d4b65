----------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* Recorded sessions against SessionOps.tla: whenever two arrays have the  *)
(* same provenance, they are equal (C12, C17, C28).                        *)
(*                                                                         *)
(* begin: objs = class of each object, ver = contents of each data set     *)
(* op: an operation and the arrays it produced, in order, as sequences of  *)
(*     integers (shape, then entries in fixed point)                       *)
(* again: the arrays of operation number k, as handed out, read once more  *)
(***************************************************************************)
EXTENDS SessionOps, SequencesExt

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}

Start(case) == [m |-> [obj |-> <<>>, file |-> <<>>, ver |-> <<>>], known |-> <<>>, vals |-> <<>>]

RECURSIVE Learn(_, _, _, _)
Learn(known, ts, vs, i) ==
    IF i > Len(ts) \/ i > Len(vs) THEN known
    ELSE Learn(IF ts[i] \in DOMAIN known THEN known ELSE Upd(known, ts[i], vs[i]), ts, vs, i + 1)

Step(s, e) ==
    CASE e.e = "begin" -> [s EXCEPT !.m = [obj |-> [o \in DOMAIN e.objs |-> NewObj(e.objs[o])],
                                           file |-> <<>>, ver |-> e.ver]]
      [] e.e = "op" -> [m |-> TLCEval(Apply(s.m, e.op)),
                        known |-> TLCEval(Learn(s.known, Results(s.m, e.op), e.vals, 1)),
                        vals |-> Append(s.vals, e.vals)]
      [] OTHER -> s

Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] - b[i] \in -3..3

Clause(op) == CASE op.op \in {"put", "putdecomp"} -> "SavesWhatItIsNamedFor"
                [] op.op \in {"get", "getdecomp"} -> "LoadsTheSameValues"
                [] op.op = "decomp" \/ op.op = "redo" -> "DecompositionOfCurrentData"
                [] op.op = "modes" -> "ModesOfCurrentDecomposition"
                [] op.op = "coeffs" -> "CoefficientsOfCurrentDecomposition"
                [] OTHER -> "IndependentOfHistory"

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "op" ->
           LET ts == TLCEval(Results(s.m, e.op)) IN
           If(Len(ts) = Len(e.vals), Clause(e.op))
           \cup If(\A i \in DOMAIN ts : i \in DOMAIN e.vals /\ ts[i] \in DOMAIN s.known
                        => Near(s.known[ts[i]], e.vals[i]), Clause(e.op))
           \cup If(\A i \in DOMAIN ts : ts[i] # NONE, "SessionModel")
      [] e.e = "again" -> If(e.vals = s.vals[e.k], "ResultKept")
      [] e.e = "error" -> {"NoError"}
      [] e.e = "end" -> If(e.problem = "none", "NoDeadlock")
      [] OTHER -> {"UnknownEvent"}

EndFails(s) == {}
INSTANCE TraceRunner
=============================================================================
