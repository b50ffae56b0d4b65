------------------------------- MODULE GuardTrace -------------------------------
(***************************************************************************)
(* Requests and refusals (C25).                                            *)
(*                                                                         *)
(* begin: P workers and the whole sequence of requests, in order.  The     *)
(*   verdict of a request depends on the requests before it: what the      *)
(*   objects hold by then (how many rows their coefficients have, how many *)
(*   modes there are, how many vector handles they know).                  *)
(* out: worker r is back from request k: err = <<>> or the class of the    *)
(*   exception with its base classes; wrote: what it put or saved meanwhile*)
(* end: how the run ended                                                  *)
(*                                                                         *)
(* An object: ip (has an inner product), rows, rowsA (of the coefficients; *)
(* rowsA: adjoint side of BPOD), m (modes), vec and adv (handles known:    *)
(* a number, NONE, or UNSURE after a refused request).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
NONE == -1
UNSURE == -2

Accept == [v |-> "accept", kinds |-> {}]
Free == [v |-> "free", kinds |-> {}]
Refuse(kinds) == [v |-> "refuse", kinds |-> kinds]
AnyError == {"Exception"}
Guard(broken, kind) == IF broken THEN Refuse({kind}) ELSE Accept

New(q) == [ip |-> q.ip, cls |-> q.cls, rows |-> NONE, rowsA |-> NONE, m |-> NONE, vec |-> NONE, adv |-> NONE]

(* shape of the coefficients of a linear combination of nb vectors *)
CoefShape(q) == IF q.ndim = 2 THEN q.shape ELSE IF q.nb = 1 THEN <<1, q.shape[1]>> ELSE <<q.shape[1], 1>>
InRange(idx, n) == \A i \in 1..Len(idx) : idx[i] >= 0 /\ idx[i] < n
LinComb(q) ==
    LET sh == CoefShape(q) IN
    IF q.sel /\ ~InRange(q.idx, sh[2]) THEN Refuse(AnyError)
    ELSE Guard(sh[1] # q.nb \/ (IF q.sel THEN Len(q.idx) ELSE sh[2]) # q.ns, "ValueError")

Modes(o, q) ==
    LET dmd == o.cls \in {"DMD", "TLSqrDMD"}
        side == IF q.kind \in {"exact_modes"} \/ (o.cls = "BPOD" /\ q.kind = "adjoint_modes") THEN "adv" ELSE "vec"
        n == IF q.src # NONE THEN q.src ELSE IF side = "adv" THEN o.adv ELSE o.vec
        rows == IF o.cls = "BPOD" /\ side = "adv" THEN o.rowsA ELSE o.rows
        (* the number of vectors which are combined; NONE if no set of them fits *)
        use == IF ~dmd THEN n
               ELSE IF side = "adv" THEN (IF n # NONE THEN n ELSE IF o.vec = rows + 1 THEN rows ELSE IF o.vec = UNSURE THEN UNSURE ELSE NONE)
               ELSE IF n = rows + 1 THEN rows ELSE n
        range == InRange(q.idx, o.m)
        fits == Len(q.idx) = q.nh
    IN IF o.m = NONE \/ (\E i \in 1..Len(q.idx) : q.idx[i] < 0) THEN Free
       ELSE IF n = NONE /\ use = NONE
       THEN Refuse(IF o.cls = "BPOD" THEN {"UndefinedError"} ELSE IF dmd /\ side = "adv" THEN {"ValueError"} ELSE AnyError)
       ELSE IF ~range THEN (IF use = UNSURE \/ use = rows THEN Refuse(AnyError) ELSE Refuse(AnyError))
       ELSE IF ~fits THEN Refuse({"ValueError"})
       ELSE IF use = UNSURE THEN Free
       ELSE Guard(use # rows, "ValueError")

Verdict(objs, P, q) ==
    CASE q.op = "lc" -> LinComb(q)
      [] q.op \in {"ip", "symm", "sanity"} -> Guard(~q.ip, "RuntimeError")
      [] q.op = "derivs" -> Guard(q.n # q.a \/ q.n # q.d, "RuntimeError")
      [] q.op = "new" -> Accept
      [] q.op = "decomp" ->
           LET o == objs[q.obj] IN
           IF q.a # NONE /\ q.a # q.n /\ o.cls # "BPOD" THEN (IF o.ip THEN Refuse({"ValueError"}) ELSE Refuse({"ValueError", "RuntimeError"}))
           ELSE Guard(~o.ip, "RuntimeError")
      [] q.op \in {"putdecomp", "load"} -> Accept
      [] q.op = "modes" -> Modes(objs[q.obj], q)
      [] q.op = "unavail" -> Refuse({"NotImplementedError"})
      [] q.op = "galnew" -> Guard(q.a # NONE /\ q.a # q.n, "ValueError")
      [] q.op = "galreduce" -> Guard(~q.ip, "RuntimeError")
      [] q.op = "arrays" ->
           IF P > 1 THEN Refuse({"RuntimeError"})
           ELSE Guard(q.mismatch \/ q.wdim > 2, "ValueError")
      [] q.op = "weights" -> Guard(q.wdim > 2, "ValueError")
      [] q.op = "scale" -> Guard(q.choice \notin {"left", "LEFT", "Left", "right", "RIGHT", "Right"}, "ValueError")
      [] q.op = "sampled" ->
           IF q.nt # q.nm THEN Refuse({"RuntimeError"}) ELSE Guard(~q.even, "ValueError")
      [] q.op = "era" ->
           IF q.ndim > 3 THEN Refuse({"RuntimeError"})
           ELSE Guard(q.mo < 1 \/ q.mc < 1 \/ 2 * (q.mo + q.mc) - 2 > q.nt - (q.nt % 2), "ValueError")
      [] q.op = "okid" -> Guard(q.ni # q.no, "ValueError")
      [] q.op = "save" -> Guard(q.ndim > 2, "RuntimeError")
      [] q.op = "loadcomplex" -> Guard((q.cols % 2) = 1, "ValueError")
      [] q.op = "signals" -> Guard(q.cols < 2, "ValueError")
      [] q.op = "trapz" -> IF q.grids = 0 THEN Refuse({"ValueError"}) ELSE Guard(q.list, "TypeError")
      [] q.op = "trapzcall" -> Guard(q.shape1 # q.grid \/ q.shape2 # q.grid, "TypeError")
      [] q.op = "abstract" -> Refuse({"NotImplementedError"})
      [] q.op = "channel" -> Guard(q.name \notin {"stdout", "STDOUT", "Stdout", "stderr", "STDERR"}, "ValueError")
      [] OTHER -> Free

(* what the objects hold afterwards *)
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Side(o, q) == IF q.kind \in {"exact_modes"} \/ (o.cls = "BPOD" /\ q.kind = "adjoint_modes") THEN "adv" ELSE "vec"
After(objs, q, v) ==
    CASE q.op = "new" -> Put(objs, q.obj, New(q))
      [] q.op = "decomp" ->
           LET o == objs[q.obj]
               seq == o.cls \in {"DMD", "TLSqrDMD"} /\ q.a = NONE
           IN IF v.v = "accept"
              THEN Put(objs, q.obj, [o EXCEPT !.rows = IF seq THEN q.n - 1 ELSE q.n, !.rowsA = q.a, !.m = q.m,
                                              !.vec = q.n, !.adv = q.a])
              ELSE Put(objs, q.obj, [o EXCEPT !.vec = UNSURE, !.adv = UNSURE])
      [] q.op = "load" ->
           Put(objs, q.obj, [objs[q.obj] EXCEPT !.rows = objs[q.from].rows, !.rowsA = objs[q.from].rowsA, !.m = objs[q.from].m])
      [] q.op = "modes" /\ q.src # NONE ->
           LET o == objs[q.obj] new == IF v.v = "accept" THEN q.src ELSE UNSURE IN
           Put(objs, q.obj, IF Side(o, q) = "adv" THEN [o EXCEPT !.adv = new] ELSE [o EXCEPT !.vec = new])
      [] OTHER -> objs

RECURSIVE Run(_, _, _, _)
Run(objs, P, qs, acc) ==
    IF qs = <<>> THEN acc
    ELSE LET v == Verdict(objs, P, Head(qs)) IN Run(After(objs, Head(qs), v), P, Tail(qs), Append(acc, v))

Start(case) == [P |-> 0, v |-> <<>>, back |-> {}]
Step(s, e) ==
    CASE e.e = "begin" -> [P |-> e.P, v |-> TLCEval(Run(<<>>, e.P, e.asks, <<>>)), back |-> {}]
      [] e.e = "out" -> [s EXCEPT !.back = @ \cup {<<e.k, e.r>>}]
      [] OTHER -> s

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "out" ->
           LET v == s.v[e.k]
               kinds == {e.err[i] : i \in DOMAIN e.err}
           IN CASE v.v = "accept" -> If(kinds = {}, "ValidIsAccepted")
                [] v.v = "refuse" ->
                     (IF kinds = {} THEN {"InvalidIsRefused"} ELSE If(kinds \cap v.kinds # {}, "ErrorOfItsKind"))
                     \cup If(e.wrote = 0, "NothingWritten")
                [] OTHER -> {}
      [] e.e = "end" ->
           If(e.problem = "none", "NoDeadlock")
           \cup If(\A k \in DOMAIN s.v : \A r \in 0..(s.P - 1) : <<k, r>> \in s.back, "OnEveryWorker")
      [] e.e = "error" -> {"WorkerFailed"}
      [] OTHER -> {"Unknown"}
EndFails(s) == If(s.P > 0, "Result")

INSTANCE TraceRunner
===============================================================================
