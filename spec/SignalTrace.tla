------------------------------ MODULE SignalTrace ------------------------------
(***************************************************************************)
(* Signal files (C24).  Numbers are uninterpreted names, as in TextTrace.  *)
(*                                                                         *)
(* write: file f now holds the given lines (sequences of names); tick: the *)
(*   class of its time column (equal for columns which agree, up to        *)
(*   rounding), given by the generator                                     *)
(* one: load_signals(f): time, sig (rows of entries), err                  *)
(* many: load_multiple_signals(fs): time, all (a sequence of sig), err     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES c, l, st, bad

If(cond, name) == IF cond THEN {} ELSE {name}
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

Time(lines) == [i \in DOMAIN lines |-> lines[i][1]]
Signals(lines) == [i \in DOMAIN lines |-> Tail(lines[i])]
Channels(lines) == Len(lines[1]) - 1

Start(case) == [files |-> <<>>, seen |-> FALSE]
Step(s, e) == IF e.e = "write" THEN [s EXCEPT !.files = Put(@, e.f, [lines |-> e.lines, tick |-> e.tick])]
              ELSE [s EXCEPT !.seen = TRUE]

Bare(s, f) == Channels(s.files[f].lines) = 0
Fails(s, e) ==
    CASE e.e = "write" -> {}
      [] e.e = "one" ->
           LET lines == s.files[e.f].lines IN
           IF Bare(s, e.f) THEN If(e.err # "", "RefusesNoSignal")
           ELSE IF e.err # "" THEN {"Loads"}
           ELSE If(e.time = Time(lines), "TimeIsFirstColumn")
                \cup If(e.sig = Signals(lines), "SignalsAreTheOtherColumns")
      [] e.e = "many" ->
           LET F(i) == s.files[e.fs[i]]
               I == DOMAIN e.fs
           IN IF \E i \in I : Bare(s, e.fs[i]) THEN If(e.err # "", "RefusesNoSignal")
              ELSE IF \E i \in I : F(i).tick # F(1).tick \/ Len(F(i).lines) # Len(F(1).lines)
                   THEN If(e.err # "", "RefusesOtherTimes")
              ELSE IF \E i \in I : Channels(F(i).lines) # Channels(F(1).lines) THEN If(e.err # "", "RefusesOtherChannels")
              ELSE IF e.err # "" THEN {"Loads"}
              ELSE If(e.time = Time(F(1).lines), "TimeIsFirstColumn")
                   \cup If(e.all = [i \in I |-> Signals(F(i).lines)], "IndexedByFileTimeChannel")
      [] OTHER -> {"Unknown"}
EndFails(s) == If(s.seen, "Result")

INSTANCE TraceRunner
===============================================================================
