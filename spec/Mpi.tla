--------------------------------- MODULE Mpi ---------------------------------
(***************************************************************************)
(* Every schedule of a message-passing program.                            *)
(*                                                                         *)
(* A program gives each worker its sequence of communication steps, as     *)
(* recorded from the real code:                                            *)
(*   <<"send", dest, tag, sync>>   blocking send (sync = 1: synchronous)   *)
(*   <<"isend", dest, tag, req>>   non-blocking send, request req          *)
(*   <<"wait", dest, tag, n>>      wait for the request of step n          *)
(*   <<"recv", source, tag, 0>>    source -2: any, tag -1: any             *)
(*   <<kind, root, k, 0>>          the k-th collective call of this worker *)
(*   <<"put", 0, h, 0>>            output vector h is put                  *)
(*   <<"save", 0, h, 0>>           array h is written                      *)
(*   <<"ret", k, 0, 0>>            the worker returns from call number k   *)
(* `lax` chooses how much buffering and overlap the message-passing layer  *)
(* provides: a lax layer buffers every send and lets a worker leave a      *)
(* collective as soon as the data it needs is there; a strict one buffers  *)
(* nothing and synchronises in every collective.  (Mixtures allow no       *)
(* deadlock the strict layer does not, and no early return the lax layer   *)
(* does not.)                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

(* Progs[i]: [P, prog (one sequence per worker), colls (per worker, where    *)
(* its collective calls are), outs (per call, where its outputs are put or   *)
(* saved: <<worker, step>>; step 0 if that never happens)]                   *)
Progs == TLCGet(78)

VARIABLES pi,      \* which program
          lax,
          pc,      \* next step of each worker (1-based)
          net      \* sent and unreceived messages: <<src, dst, tag, n>>,
                   \* n = index of the sending step: the request's identity

vars == <<pi, lax, pc, net>>

ANY == -2
ANYTAG == -1
P == Progs[pi].P
W == 0..(P - 1)
Prog(r) == Progs[pi].prog[r + 1]
AtEnd(r) == pc[r] > Len(Prog(r))
Op(r) == Prog(r)[pc[r]]
Local == {"put", "save", "ret"}
P2P == {"send", "isend", "wait", "recv"}

IsColl(op) == op[1] \notin Local \cup P2P

(* has worker r reached (entered) its k-th collective (k from 0)?            *)
CollAt(r, k) == IF k + 1 <= Len(Progs[pi].colls[r + 1]) THEN Progs[pi].colls[r + 1][k + 1] ELSE 0
Reached(r, k) == CollAt(r, k) # 0 /\ pc[r] >= CollAt(r, k)

Init == /\ TLCSet(78, ndJsonDeserialize(IOEnv.MRV_TRACE))
        /\ pi \in 1..Len(Progs)
        /\ lax \in {TRUE, FALSE}
        /\ pc = [r \in 0..(Progs[pi].P - 1) |-> 1]
        /\ net = {}

Go(r) == pc' = [pc EXCEPT ![r] = @ + 1]

Advance(r) == /\ Go(r) /\ UNCHANGED <<pi, lax, net>>

Received(r, n) == \A m \in net : ~(m[1] = r /\ m[4] = n)

Isend(r) == /\ Op(r)[1] = "isend"
            /\ net' = net \cup {<<r, Op(r)[2], Op(r)[3], pc[r]>>}
            /\ Go(r)
            /\ UNCHANGED <<pi, lax>>

SendBuffered(r) == /\ Op(r)[1] = "send" /\ lax /\ Op(r)[4] = 0
                   /\ net' = net \cup {<<r, Op(r)[2], Op(r)[3], pc[r]>>}
                   /\ Go(r)
                   /\ UNCHANGED <<pi, lax>>

Wait(r) == /\ Op(r)[1] = "wait"
           /\ lax \/ Received(r, Op(r)[4])
           /\ Advance(r)

Matches(m, r) == /\ m[2] = r
                 /\ Op(r)[2] \in {ANY, m[1]}
                 /\ Op(r)[3] \in {ANYTAG, m[3]}

(* messages of one sender do not overtake each other *)
First(m, r) == \A x \in net : (x[1] = m[1] /\ Matches(x, r)) => m[4] <= x[4]

Recv(r) == /\ Op(r)[1] = "recv"
           /\ \E m \in net : /\ Matches(m, r) /\ First(m, r)
                             /\ net' = net \ {m}
           /\ Go(r)
           /\ UNCHANGED <<pi, lax>>

(* strict: sender and receiver meet *)
Rendezvous(r) ==
    /\ Op(r)[1] = "send" /\ (~lax \/ Op(r)[4] = 1)
    /\ \E q \in W : /\ q # r /\ Op(r)[2] = q /\ ~AtEnd(q) /\ Op(q)[1] = "recv"
                    /\ Matches(<<r, q, Op(r)[3], pc[r]>>, q)
                    /\ \A x \in net : ~(x[1] = r /\ Matches(x, q))
                    /\ pc' = [pc EXCEPT ![r] = @ + 1, ![q] = @ + 1]
    /\ UNCHANGED <<pi, lax, net>>

(* which workers must have reached a collective before r may leave it *)
Needs(r, op) ==
    IF ~lax \/ op[1] \in {"barrier", "allgather", "allreduce", "alltoall"} THEN W
    ELSE IF op[1] \in {"bcast", "scatter"} THEN {op[2]}
    ELSE IF op[1] \in {"gather", "reduce"} THEN (IF r = op[2] THEN W ELSE {r})
    ELSE IF op[1] \in {"scan", "exscan"} THEN 0..r
    ELSE W

Collective(r) ==
    /\ IsColl(Op(r))
    /\ \A q \in Needs(r, Op(r)) : Reached(q, Op(r)[3])
    /\ Advance(r)

LocalStep(r) == /\ Op(r)[1] \in Local /\ Advance(r)

Next == \E r \in W : /\ ~AtEnd(r)
                     /\ \/ Isend(r) \/ SendBuffered(r) \/ Wait(r) \/ Recv(r)
                        \/ Rendezvous(r) \/ Collective(r) \/ LocalStep(r)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Finished == \A r \in W : AtEnd(r)

(* no set of workers ends up waiting for each other *)
NoDeadlock == Finished \/ ENABLED Next

(* all workers make the same collective calls in the same order *)
SameCollectives ==
    \A r \in W : (~AtEnd(r) /\ IsColl(Op(r))) =>
        \A q \in W : LET k == CollAt(q, Op(r)[3]) IN
            /\ k # 0
            /\ Prog(q)[k][1] = Op(r)[1] /\ Prog(q)[k][2] = Op(r)[2]

(* no message is left undelivered *)
NoLeftover == Finished => net = {}

(* when a worker has returned from call k, whatever call k puts or saves has *)
(* been put or saved                                                         *)
CompleteAtReturn ==
    \A r \in W : (pc[r] > 1 /\ Prog(r)[pc[r] - 1][1] = "ret") =>
        LET outs == Progs[pi].outs[Prog(r)[pc[r] - 1][2] + 1] IN
        \A x \in 1..Len(outs) : outs[x][2] > 0 /\ pc[outs[x][1]] > outs[x][2]
=============================================================================
