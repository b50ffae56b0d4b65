------------------------------- MODULE Reduce -------------------------------
(***************************************************************************)
(* Reductions over P workers (reductions.Intracomm).                       *)
(*                                                                         *)
(* Part 1: what a reduction has to return, for any associative operation.  *)
(* The contributions live in a monoid; the free monoid (sequences with     *)
(* concatenation) tells any two orders or bracketings-with-reordering      *)
(* apart, so it is the hardest instance.                                   *)
(*                                                                         *)
(* Part 2: design models of the two communication patterns in use - the    *)
(* binomial tree (reduce) and recursive doubling (scan, exscan) - as       *)
(* message-passing programs; TLC explores every schedule and number of     *)
(* workers, with and without buffering, and checks part 1 at the end.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

-----------------------------------------------------------------------------
(* Part 1 *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* x[r+1] is the contribution of worker r *)
FoldAll(x) == Cat(x)
FoldUpTo(x, r) == Cat(SubSeq(x, 1, r + 1))
FoldBefore(x, r) == Cat(SubSeq(x, 1, r))

-----------------------------------------------------------------------------
(* Part 2 *)
CONSTANTS MaxP

VARIABLES P, kind, root, strict,   \* the run
          mask, phase, acc, part,  \* per worker
          flag,                    \* per worker: exscan has received something
          net                      \* messages <<from, to, stage, value>>
vars == <<P, kind, root, strict, mask, phase, acc, part, flag, net>>

W == 0..(P - 1)
Mine(r) == <<r>>

Init == /\ P \in 1..MaxP
        /\ kind \in {"reduce", "scan", "exscan"}
        /\ root \in IF kind = "reduce" THEN 0..(P - 1) ELSE {0}
        /\ strict \in {TRUE, FALSE}
        /\ mask = [r \in 0..(P - 1) |-> 1]
        /\ phase = [r \in 0..(P - 1) |-> "loop"]
        /\ acc = [r \in 0..(P - 1) |-> Mine(r)]
        /\ part = [r \in 0..(P - 1) |-> Mine(r)]
        /\ flag = [r \in 0..(P - 1) |-> FALSE]
        /\ net = {}

Const == UNCHANGED <<P, kind, root, strict>>
Has(r, m) == (r \div m) % 2 = 1

(* --- binomial tree: the workers with the bit set send to their neighbour  *)
(* and go on (sending again what they hold, to ever lower neighbours)       *)
TreeSend(r) ==
    /\ kind = "reduce" /\ phase[r] = "loop" /\ mask[r] < P /\ Has(r, mask[r])
    /\ net' = net \cup {<<r, r - mask[r], mask[r], acc[r]>>}
    /\ phase' = [phase EXCEPT ![r] = "sent"]
    /\ Const /\ UNCHANGED <<mask, acc, part, flag>>
Delivered(r) == \A m \in net : m[1] # r
TreeSent(r) ==
    /\ phase[r] = "sent" /\ (~strict \/ Delivered(r))
    /\ phase' = [phase EXCEPT ![r] = "root"]
    /\ Const /\ UNCHANGED <<mask, acc, part, flag, net>>
TreeRecv(r) ==
    /\ kind = "reduce" /\ phase[r] = "loop" /\ mask[r] < P /\ ~Has(r, mask[r])
    /\ IF r + mask[r] >= P
       THEN mask' = [mask EXCEPT ![r] = 2 * @] /\ UNCHANGED <<acc, net>>
       ELSE \E m \in net : /\ m[2] = r /\ m[1] = r + mask[r]
                           /\ acc' = [acc EXCEPT ![r] = @ \o m[4]]
                           /\ net' = net \ {m}
                           /\ mask' = [mask EXCEPT ![r] = 2 * @]
    /\ Const /\ UNCHANGED <<phase, part, flag>>
TreeDone(r) ==
    /\ kind = "reduce" /\ phase[r] = "loop" /\ mask[r] >= P
    /\ phase' = [phase EXCEPT ![r] = "root"]
    /\ Const /\ UNCHANGED <<mask, acc, part, flag, net>>
ToRoot(r) ==
    /\ phase[r] = "root"
    /\ IF root = 0 \/ (r # 0 /\ r # root)
       THEN /\ phase' = [phase EXCEPT ![r] = "done"]
            /\ acc' = [acc EXCEPT ![r] = IF r = root THEN @ ELSE <<>>]
            /\ UNCHANGED net
       ELSE IF r = 0
       THEN /\ net' = net \cup {<<0, root, 0, acc[0]>>}
            /\ phase' = [phase EXCEPT ![r] = "done"]
            /\ acc' = [acc EXCEPT ![0] = <<>>]
       ELSE \E m \in net : /\ m[1] = 0 /\ m[2] = r /\ m[3] = 0
                           /\ acc' = [acc EXCEPT ![r] = m[4]]
                           /\ net' = net \ {m}
                           /\ phase' = [phase EXCEPT ![r] = "done"]
    /\ Const /\ UNCHANGED <<mask, part, flag>>

(* --- recursive doubling: exchange with the neighbour across the mask bit  *)
Xor(r, m) == IF Has(r, m) THEN r - m ELSE r + m
DblSend(r) ==
    /\ kind # "reduce" /\ phase[r] = "loop" /\ mask[r] < P
    /\ IF Xor(r, mask[r]) >= P
       THEN mask' = [mask EXCEPT ![r] = 2 * @] /\ UNCHANGED <<net, phase>>
       ELSE /\ net' = net \cup {<<r, Xor(r, mask[r]), mask[r], part[r]>>}
            /\ phase' = [phase EXCEPT ![r] = "exch"]
            /\ UNCHANGED mask
    /\ Const /\ UNCHANGED <<acc, part, flag>>
DblRecv(r) ==
    /\ phase[r] = "exch"
    /\ \E m \in net :
         /\ m[2] = r /\ m[1] = Xor(r, mask[r]) /\ m[3] = mask[r]
         /\ net' = net \ {m}
         /\ IF r > m[1]
            THEN /\ part' = [part EXCEPT ![r] = m[4] \o @]
                 /\ acc' = [acc EXCEPT ![r] =
                      IF kind = "scan" THEN m[4] \o @
                      ELSE IF flag[r] THEN m[4] \o @ ELSE m[4]]
                 /\ flag' = [flag EXCEPT ![r] = TRUE]
            ELSE part' = [part EXCEPT ![r] = @ \o m[4]] /\ UNCHANGED <<acc, flag>>
    /\ mask' = [mask EXCEPT ![r] = 2 * @]
    /\ phase' = [phase EXCEPT ![r] = "loop"]
    /\ Const
DblDone(r) ==
    /\ kind # "reduce" /\ phase[r] = "loop" /\ mask[r] >= P
    /\ phase' = [phase EXCEPT ![r] = "done"]
    /\ acc' = [acc EXCEPT ![r] = IF kind = "exscan" /\ r = 0 THEN <<>> ELSE @]
    /\ Const /\ UNCHANGED <<mask, part, flag, net>>

Next == \E r \in W : TreeSend(r) \/ TreeSent(r) \/ TreeRecv(r) \/ TreeDone(r) \/ ToRoot(r)
                     \/ DblSend(r) \/ DblRecv(r) \/ DblDone(r)
Spec == Init /\ [][Next]_vars

Done == \A r \in W : phase[r] = "done"
NoDeadlock == Done \/ ENABLED Next
X == [r \in 1..P |-> Mine(r - 1)]
Correct ==
    Done => /\ net = {}
            /\ \A r \in W :
                 acc[r] = CASE kind = "reduce" -> IF r = root THEN FoldAll(X) ELSE <<>>
                            [] kind = "scan" -> FoldUpTo(X, r)
                            [] kind = "exscan" -> FoldBefore(X, r)
=============================================================================
