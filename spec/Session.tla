------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* All histories of at most MaxLen operations on two objects of a class,   *)
(* sharing data sets and saved arrays (C12, C17).  The maximal histories   *)
(* are printed and replayed on the real classes; SessionTrace.tla then     *)
(* judges what they produced.                                              *)
(***************************************************************************)
EXTENDS SessionOps, Json

CONSTANTS Cls, MaxLen, Emit, Focus, Sequential    \* Sequential: the sequential data sets

Objs == {"o", "p"}
Data == {"d1", "d2", "d3"}          \* d1 and d2 have the same number of vectors
Params == {"", "max_num_eigvals=1"}
Files == {"f", "g"}

VARIABLES s, hist, given            \* given: ghost, the data last given to each object
vars == <<s, hist, given>>

ParamsOf(cls) == IF IsDMD(cls) THEN Params ELSE {"", "rtol=0.5"}
ModeKinds(cls) == CASE cls = "POD" -> {"modes"} [] cls = "BPOD" -> {"direct_modes", "adjoint_modes"}
                    [] OTHER -> {"exact_modes", "proj_modes", "adjoint_modes"}
CoeffKinds(cls) == CASE cls = "POD" -> {"proj_coeffs"} [] cls = "BPOD" -> {"direct_proj_coeffs", "adjoint_proj_coeffs"}
                     [] OTHER -> {"spectrum", "proj_coeffs"}
OneArrays(cls) == CASE cls = "POD" -> {"proj_coeffs"} [] cls = "BPOD" -> {"direct_proj_coeffs"}
                    [] OTHER -> {"spectral_coeffs"}

Init == /\ s = [obj |-> [o \in Objs |-> NewObj(Cls)], file |-> <<>>, ver |-> [d \in Data |-> d]]
        /\ hist = <<>>
        /\ given = [o \in Objs |-> NONE]

Data0(o) == LET i == o.in[Inputs(Cls)[1]] IN i[3]
HasInputs(o) == \A i \in DOMAIN Inputs(Cls) : Inputs(Cls)[i] \in DOMAIN o.in
Consistent(o) == HasInputs(o) /\ \A i \in DOMAIN Inputs(Cls) : o.in[Inputs(Cls)[i]][3] = Data0(o)
DecData(o) == o.dec[3][1][3]
SameSize(a, b) == (a = "d3") = (b = "d3")

Do(op) == /\ s' = Apply(s, op)
          /\ hist' = Append(hist, op)
          /\ given' = IF op.op = "decomp" THEN [given EXCEPT ![op.obj] = <<s.ver[op.data], op.p>>] ELSE given

DoDecomp(o) == \E d \in Data, p \in ParamsOf(Cls) : Do([op |-> "decomp", obj |-> o, data |-> d, p |-> p,
                                                   seq |-> IsDMD(Cls) /\ d \in Sequential])
DoRedo(o) == /\ Consistent(s.obj[o])
             /\ \E p \in ParamsOf(Cls) : Do([op |-> "redo", obj |-> o, p |-> p])
DoModes(o) ==
    /\ s.obj[o].dec # NONE
    /\ \E k \in ModeKinds(Cls), src \in {""} \cup Data :
        LET x == s.obj[o]
            used == IF src # "" THEN <<src>> ELSE Used(x, k)
        IN /\ used # NONE
           /\ SameSize(s.ver[used[1]], DecData(x))
           \* given explicitly, other vectors than those of the decomposition replace one list only;
           \* what the other list is then is not specified
           /\ IF src # "" THEN TRUE
              \* direct modes are sums of the one list, adjoint modes of the other: each must be set
              ELSE IF ~IsDMD(Cls) THEN Part(Cls, k) = "adv" => x.adv # NONE
              \* of a sequential data set, the vectors given last are shifted
              ELSE IF x.adv = NONE THEN Part(Cls, k) = "vecs" \/ x.vecs[1] \in Sequential
              ELSE x.vecs = x.adv
           /\ Do([op |-> "modes", obj |-> o, kind |-> k, src |-> src, idx |-> <<0>>])
DoCoeffs(o) == /\ s.obj[o].dec # NONE
               /\ \E k \in CoeffKinds(Cls) :
                    /\ (k = "proj_coeffs" /\ IsDMD(Cls)) => (Consistent(s.obj[o]) /\ s.obj[o].dec[3] = InTokens(s.obj[o]))
                    /\ Do([op |-> "coeffs", obj |-> o, kind |-> k])
DoPut(o) == \E f \in Files :
    \/ /\ s.obj[o].dec # NONE
       /\ Do([op |-> "putdecomp", obj |-> o, files |-> [i \in DOMAIN Decomp(Cls) |-> f \o "." \o Decomp(Cls)[i]], dest |-> f])
    \/ \E a \in OneArrays(Cls) : /\ Attr(s.obj[o], a) # NONE
                                 /\ Do([op |-> "put", obj |-> o, what |-> a, files |-> <<f>>, dest |-> f])
DoGet(o) == \E f \in Files :
    \/ /\ (f \o "." \o Decomp(Cls)[1]) \in DOMAIN s.file
       /\ Do([op |-> "getdecomp", obj |-> o, files |-> [i \in DOMAIN Decomp(Cls) |-> f \o "." \o Decomp(Cls)[i]], src |-> f])
    \/ \E a \in OneArrays(Cls) : /\ f \in DOMAIN s.file /\ s.file[f][1] = a
                                 /\ Do([op |-> "get", obj |-> o, what |-> a, files |-> <<f>>, src |-> f])
DoWrite == Do([op |-> "write", data |-> "d1", with |-> "d2"])

(* Focus: one object, decomposed once, then used in any order *)
Next == /\ Len(hist) < MaxLen
        /\ IF Focus THEN IF hist = <<>> THEN DoDecomp("o") ELSE DoModes("o") \/ DoCoeffs("o")
           ELSE
           \/ \E o \in Objs : DoDecomp(o) \/ DoRedo(o) \/ DoModes(o) \/ DoCoeffs(o) \/ DoPut(o) \/ DoGet(o)
           \/ DoWrite
Spec == Init /\ [][Next]_vars

(* a decomposition says nothing of anything given before *)
OnlyCurrentData ==
    \A o \in Objs : given[o] # NONE /\ hist # <<>> /\ hist[Len(hist)].op = "decomp" /\ hist[Len(hist)].obj = o
        => /\ \A i \in DOMAIN Inputs(Cls) : s.obj[o].in[Inputs(Cls)[i]] = <<Cls, Inputs(Cls)[i], given[o][1]>>
           /\ s.obj[o].dec[4] = given[o][2]
(* objects do not influence each other *)
Separate == [][\A o \in Objs : s'.obj[o] # s.obj[o] => hist'[Len(hist')].obj = o]_vars
(* what is loaded is what was saved *)
LoadedWasSaved == [][LET op == hist'[Len(hist')] IN
    op.op = "getdecomp" => s'.obj[op.obj].dec = s.file[op.files[1]][2]]_vars

Useful == hist[Len(hist)].op \notin {"write", "decomp"}
Emitted == ~Emit \/ Len(hist) < MaxLen \/ ~Useful \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
