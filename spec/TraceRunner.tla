----------------------------- MODULE TraceRunner -----------------------------
(***************************************************************************)
(* Runs a trace specification over recorded behaviours of the real code.   *)
(*                                                                         *)
(* The environment variable MRV_TRACE names a file with one JSON object    *)
(* per recorded behaviour ("case"), each with a sequence of events "ev".   *)
(* The instantiating module supplies                                       *)
(*   Start(case)     the abstract state before the first event             *)
(*   Step(s, e)      the abstract state after event e                      *)
(*   Fails(s, e)     the names of the clauses event e breaks in state s    *)
(*                   ({} iff the specification allows the event)           *)
(*   EndFails(s)     the clauses broken by the behaviour ending in state s *)
(* The verdict is total: every event is consumed, and what it breaks is    *)
(* collected in `bad` and written to the file MRV_OUT at the end.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

CONSTANTS Start(_), Step(_, _), Fails(_, _), EndFails(_)

VARIABLES c, l, st, bad

(* read once, kept in a register of TLC *)
Cases == TLCGet(77)

Vars == <<c, l, st, bad>>

TraceInit == /\ TLCSet(77, ndJsonDeserialize(IOEnv.MRV_TRACE))
             /\ c = 1 /\ l = 1 /\ bad = {} /\ st = Start(Cases[1])

Consume ==
    /\ c <= Len(Cases)
    /\ l <= Len(Cases[c].ev)
    /\ LET e == Cases[c].ev[l] IN
         /\ bad' = bad \cup {<<c, l, x>> : x \in Fails(st, e)}
         /\ st' = Step(st, e)
    /\ l' = l + 1
    /\ UNCHANGED c

EndCase ==
    /\ c <= Len(Cases)
    /\ l = Len(Cases[c].ev) + 1
    /\ bad' = bad \cup {<<c, l, x>> : x \in EndFails(st)}
    /\ c' = c + 1
    /\ l' = 1
    /\ st' = IF c < Len(Cases) THEN Start(Cases[c + 1]) ELSE <<>>

Report ==
    /\ c = Len(Cases) + 1
    /\ l = 1
    /\ JsonSerialize(IOEnv.MRV_OUT, [cases |-> Len(Cases), bad |-> SetToSeq(bad)])
    /\ l' = 2
    /\ UNCHANGED <<c, st, bad>>

TraceNext == Consume \/ EndCase \/ Report

TraceSpec == TraceInit /\ [][TraceNext]_Vars
=============================================================================
