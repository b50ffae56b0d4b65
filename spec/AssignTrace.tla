----------------------------- MODULE AssignTrace -----------------------------
(***************************************************************************)
(* Judges recorded answers of find_assignments / check_for_empty_tasks.    *)
(* Each worker's entry is one Take action of Assign.                       *)
(*   begin: w (integer weights), tasks (ids, may repeat), P                *)
(*   take : r (worker 0..), got (the tasks of its entry)                   *)
(*   asked: the emptiness test on an assignment of the given sizes          *)
(*   end  : entries (number of entries), empty (answer of the emptiness    *)
(*          test), agree (every worker computed the same answer)           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES c, l, st, bad

A == INSTANCE Assign WITH MaxTasks <- 0, MaxWeight <- 0, MaxWorkers <- 0,
       w <- st, P <- c, worker <- l, pos <- bad, takes <- st

Start(case) == [w |-> <<>>, tasks |-> <<>>, P |-> 0, worker |-> 1, pos |-> 1, empty |-> FALSE]

Step(s, e) ==
    CASE e.e = "begin" -> [w |-> e.w, tasks |-> e.tasks, P |-> e.P,
                           worker |-> 1, pos |-> 1, empty |-> FALSE]
      [] e.e = "take" -> [s EXCEPT !.worker = @ + 1, !.pos = @ + Len(e.got),
                                   !.empty = @ \/ Len(e.got) = 0]
      [] OTHER -> s

Fails(s, e) ==
    CASE e.e = "begin" -> {}
      [] e.e = "take" ->
           LET n == Len(e.got)
               k == s.P - s.worker + 1
               inOrder == /\ s.pos + n - 1 <= Len(s.tasks)
                          /\ e.got = SubSeq(s.tasks, s.pos, s.pos + n - 1)
           IN (IF s.worker > s.P THEN {"OneEntryPerWorker"} ELSE {})
              \cup (IF inOrder THEN {} ELSE {"InOrderNothingTwice"})
              \cup (IF inOrder /\ s.worker <= s.P /\ n \notin A!MayTake(s.w, s.pos, k)
                    THEN {IF k = 1 THEN "LastTakesRest" ELSE "ClosestShare"} ELSE {})
      [] e.e = "end" ->
              (IF e.entries # s.P THEN {"OneEntryPerWorker"} ELSE {})
              \cup (IF s.pos # Len(s.tasks) + 1 THEN {"Complete"} ELSE {})
              \cup (IF e.empty # s.empty THEN {"EmptyReported"} ELSE {})
              \cup (IF e.agree THEN {} ELSE {"SameOnEveryWorker"})
      [] e.e = "asked" ->
           (IF e.empty # (\E i \in 1..Len(e.sizes) : e.sizes[i] = 0) THEN {"EmptyReported"} ELSE {})
      [] e.e = "error" -> {"NoError"}
      [] OTHER -> {"UnknownEvent"}

EndFails(s) == {}

INSTANCE TraceRunner
=============================================================================
