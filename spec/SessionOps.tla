------------------------------ MODULE SessionOps ------------------------------
(***************************************************************************)
(* Decomposition objects (POD, BPOD, DMD, TLSqrDMD with handles), the      *)
(* arrays they save and load and the vectors they work on, as an abstract  *)
(* machine (C12, C17).                                                     *)
(*                                                                         *)
(* Numbers do not occur: every array or vector is described by its         *)
(* provenance, a term ("token") saying how it was computed from which data *)
(* and parameters.  Two arrays with the same token must be equal.          *)
(*                                                                         *)
(* State: obj - what each object currently holds; file - what each saved   *)
(* array is; ver - the contents of each data set's vectors (they may be    *)
(* overwritten).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == <<>>

(* the arrays a decomposition is computed from *)
Inputs(cls) == CASE cls = "POD" -> <<"correlation_array">>
                 [] cls = "BPOD" -> <<"Hankel_array">>
                 [] cls = "DMD" -> <<"correlation_array", "cross_correlation_array">>
                 [] cls = "TLSqrDMD" -> <<"correlation_array", "cross_correlation_array",
                                          "adv_correlation_array">>
(* the arrays which make up the decomposition, as saved by put_decomp *)
Decomp(cls) == CASE cls = "POD" -> <<"eigvals", "eigvecs">>
                 [] cls = "BPOD" -> <<"sing_vals", "L_sing_vecs", "R_sing_vecs">>
                 [] cls = "DMD" -> <<"eigvals", "R_low_order_eigvecs", "L_low_order_eigvecs",
                                     "correlation_array_eigvals", "correlation_array_eigvecs">>
                 [] cls = "TLSqrDMD" -> <<"eigvals", "R_low_order_eigvecs", "L_low_order_eigvecs",
                                     "sum_correlation_array_eigvals", "sum_correlation_array_eigvecs",
                                     "proj_correlation_array_eigvals", "proj_correlation_array_eigvecs">>
(* arrays computed along with the decomposition *)
Derived(cls) == IF cls = "TLSqrDMD" THEN <<"sum_correlation_array", "proj_correlation_array">> ELSE <<>>
(* the arrays computed by a coefficient computation *)
Coeffs(kind) == CASE kind = "spectrum" -> <<"spectral_coeffs">>
                  [] kind = "proj_coeffs2" -> <<"proj_coeffs", "adv_proj_coeffs">>
                  [] OTHER -> <<kind>>
IsDMD(cls) == cls \in {"DMD", "TLSqrDMD"}
CoeffAttrs(cls, kind) == IF IsDMD(cls) /\ kind = "proj_coeffs" THEN Coeffs("proj_coeffs2") ELSE Coeffs(kind)
(* which of the two vector lists the modes are sums of *)
Part(cls, kind) == IF kind = "exact_modes" \/ (kind = "adjoint_modes" /\ cls = "BPOD") THEN "adv" ELSE "vecs"

(* the list the modes are sums of: without advanced vectors, those given last, shifted *)
Used(o, kind) == IF Part(o.cls, kind) = "adv" /\ o.adv # NONE THEN o.adv ELSE o.vecs

In(seq, x) == \E i \in DOMAIN seq : seq[i] = x
Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE UpdAll(_, _, _)
UpdAll(f, ks, vs) == IF ks = <<>> THEN f ELSE UpdAll(Upd(f, Head(ks), Head(vs)), Tail(ks), Tail(vs))

NewObj(cls) == [cls |-> cls, in |-> <<>>, dec |-> NONE, der |-> NONE, co |-> <<>>, vecs |-> NONE, adv |-> NONE]

InTokens(o) == [i \in DOMAIN Inputs(o.cls) |-> o.in[Inputs(o.cls)[i]]]
DecToken(o, p) == <<"dec", o.cls, InTokens(o), p>>

(* the token of an attribute an object holds, NONE if it has none *)
Attr(o, a) ==
    IF In(Inputs(o.cls), a) THEN (IF a \in DOMAIN o.in THEN o.in[a] ELSE NONE)
    ELSE IF In(Decomp(o.cls), a) THEN (IF o.dec = NONE THEN NONE ELSE <<a, o.dec>>)
    ELSE IF In(Derived(o.cls), a) THEN
         (IF a \in DOMAIN o.der THEN o.der[a] ELSE NONE)
    ELSE IF a \in DOMAIN o.co THEN o.co[a] ELSE NONE

CoToken(o, a) == <<a, o.dec, IF a = "adv_proj_coeffs" THEN o.in["cross_correlation_array"] ELSE NONE>>

(* --- effect of an operation on the state *)
WithDec(o, p) == LET t == DecToken(o, p) IN
                 [o EXCEPT !.dec = t, !.der = UpdAll(<<>>, Derived(o.cls),
                                                     [i \in DOMAIN Derived(o.cls) |-> <<Derived(o.cls)[i], t>>])]

ApplyObj(s, o, op) ==
    CASE op.op = "decomp" ->
           LET d == s.ver[op.data]
               o1 == [o EXCEPT !.in = UpdAll(@, Inputs(o.cls),
                                             [i \in DOMAIN Inputs(o.cls) |-> <<o.cls, Inputs(o.cls)[i], d>>]),
                               !.vecs = <<op.data>>,
                               \* sequential data: one list is both, shifted by one
                               !.adv = IF op.seq THEN NONE ELSE <<op.data>>]
           IN WithDec(o1, op.p)
      [] op.op = "redo" -> WithDec(o, op.p)
      [] op.op = "modes" ->
           IF op.src = "" THEN o
           ELSE IF Part(o.cls, op.kind) = "adv" THEN [o EXCEPT !.adv = <<op.src>>]
           ELSE [o EXCEPT !.vecs = <<op.src>>]
      [] op.op = "coeffs" -> LET as == CoeffAttrs(o.cls, op.kind) IN
           [o EXCEPT !.co = UpdAll(@, as, [i \in DOMAIN as |-> CoToken(o, as[i])])]
      [] op.op = "get" ->
           LET as == IF op.what = "proj_coeffs" THEN CoeffAttrs(o.cls, "proj_coeffs") ELSE <<op.what>>
               ts == [i \in DOMAIN as |-> s.file[op.files[i]]]
           IN IF In(Inputs(o.cls), op.what) THEN [o EXCEPT !.in = UpdAll(@, as, ts)]
              ELSE IF In(Derived(o.cls), op.what) THEN [o EXCEPT !.der = UpdAll(@, as, ts)]
              ELSE [o EXCEPT !.co = UpdAll(@, as, ts)]
      [] op.op = "getdecomp" -> [o EXCEPT !.dec = s.file[op.files[1]][2]]
      [] OTHER -> o

Saved(o, op) == IF op.op = "putdecomp" THEN Decomp(o.cls)
                ELSE IF op.what = "proj_coeffs" THEN CoeffAttrs(o.cls, "proj_coeffs") ELSE <<op.what>>

Apply(s, op) ==
    IF op.op = "write" THEN [s EXCEPT !.ver = Upd(@, op.data, s.ver[op.with])]
    ELSE IF op.op = "pure" THEN s
    ELSE LET o == s.obj[op.obj] IN
         IF op.op \in {"put", "putdecomp"}
         THEN [s EXCEPT !.file = UpdAll(@, op.files, [i \in DOMAIN op.files |-> Attr(o, Saved(o, op)[i])])]
         ELSE [s EXCEPT !.obj = Upd(@, op.obj, ApplyObj(s, o, op))]

(* --- the tokens of the arrays and vectors the operation produces, in order *)
Results(s, op) ==
    IF op.op = "write" THEN <<>>
    ELSE IF op.op = "pure" THEN [i \in 1..op.n |-> <<"pure", op.key, [j \in DOMAIN op.data |-> s.ver[op.data[j]]], i>>]
    ELSE
    LET o == s.obj[op.obj]
        n == Apply(s, op).obj[op.obj]
        attrs(as) == [i \in DOMAIN as |-> Attr(n, as[i])]
    IN CASE op.op = "decomp" -> attrs(Decomp(o.cls)) \o attrs(Inputs(o.cls)) \o attrs(Derived(o.cls))
         [] op.op = "redo" -> attrs(Decomp(o.cls)) \o attrs(Derived(o.cls))
         [] op.op = "modes" ->
              LET used == Used(n, op.kind)
              IN [i \in DOMAIN op.idx |-> <<"mode", o.cls, op.kind, op.idx[i], n.dec, s.ver[used[1]]>>]
         [] op.op = "coeffs" -> attrs(CoeffAttrs(o.cls, op.kind))
         [] op.op = "get" ->
              attrs(IF op.what = "proj_coeffs" THEN CoeffAttrs(o.cls, "proj_coeffs") ELSE <<op.what>>)
         [] op.op = "getdecomp" -> attrs(Decomp(o.cls))
         [] op.op \in {"put", "putdecomp"} -> [i \in DOMAIN op.files |-> Attr(o, Saved(o, op)[i])]
         [] OTHER -> <<>>
=============================================================================
