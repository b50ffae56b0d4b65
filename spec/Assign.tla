------------------------------- MODULE Assign -------------------------------
(***************************************************************************)
(* Division of weighted tasks among workers (parallel.find_assignments).   *)
(*                                                                         *)
(* Weights are non-negative integers (any rational weights can be scaled). *)
(* Workers are served in order.  A worker takes the non-empty run of the   *)
(* next tasks whose weight is closest to an equal share of the remaining   *)
(* weight (a tie may be resolved either way), the last one takes the rest. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Sum(w) == FoldLeft(LAMBDA a, b: a + b, 0, w)

(* |k * (weight of the next j tasks) - (remaining weight)|, k = number of   *)
(* remaining workers: the distance from the equal share, scaled by k.       *)
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(w, pos, j, k) == Abs(k * Sum(SubSeq(w, pos, pos + j - 1))
                           - Sum(SubSeq(w, pos, Len(w))))

(* Numbers of tasks a worker may take: pos = next task, k = workers left    *)
MayTake(w, pos, k) ==
    LET left == Len(w) - pos + 1 IN
    IF left <= 0 THEN {0}
    ELSE IF k = 1 THEN {left}
    ELSE {j \in 1..left : \A i \in 1..left : Dist(w, pos, j, k) <= Dist(w, pos, i, k)}

-----------------------------------------------------------------------------
(* Design model: all weights of length <= MaxTasks over 0..MaxWeight, all   *)
(* numbers of workers, every choice at a tie.                               *)
CONSTANTS MaxTasks, MaxWeight, MaxWorkers

VARIABLES w, P, worker, pos, takes

avars == <<w, P, worker, pos, takes>>

AInit == /\ w \in UNION {[1..n -> 0..MaxWeight] : n \in 0..MaxTasks}
         /\ P \in 1..MaxWorkers
         /\ worker = 1 /\ pos = 1 /\ takes = <<>>

Take == /\ worker <= P
        /\ \E j \in MayTake(w, pos, P - worker + 1) :
             /\ takes' = Append(takes, j)
             /\ pos' = pos + j
        /\ worker' = worker + 1
        /\ UNCHANGED <<w, P>>

ASpec == AInit /\ [][Take]_avars

Done == worker = P + 1
(* every task is taken, in order, nothing twice *)
Complete == Done => /\ Len(takes) = P
                    /\ pos = Len(w) + 1
                    /\ Sum(takes) = Len(w)
(* with equal (positive) weights the numbers of tasks differ by at most one *)
EvenIfEqual ==
    (Done /\ \A i \in 1..Len(w) : w[i] = w[1] /\ w[i] > 0)
      => \A i, j \in 1..P : takes[i] - takes[j] \in {-1, 0, 1}
(* a worker is idle only if nothing was left for it *)
IdleOnlyIfNothingLeft ==
    \A i \in 1..Len(takes) : takes[i] = 0 =>
        Sum(SubSeq(takes, 1, i)) = Len(w)
(* no worker but the last gets more than its equal share plus one task:     *)
(* removing the last task of a run never brings it below a share overshoot  *)
NoGreed ==
    Done => \A i \in 1..(P - 1) : takes[i] > 1 =>
        LET p0 == Sum(SubSeq(takes, 1, i - 1)) + 1
            k  == P - i + 1
        IN Dist(w, p0, takes[i], k) <= Dist(w, p0, takes[i] - 1, k)
=============================================================================
