----------------------------- MODULE HandleCache -----------------------------
(***************************************************************************)
(* Vector handles (C10).  A handle names a cell of the store and has       *)
(* optionally a base handle and a scale.  Reading it gives                 *)
(*     scale * (stored vector - what reading the base handle gives).       *)
(* The implementation keeps one cached base vector for all handles of a    *)
(* worker; the model has this cache too, and `Fresh` says that it is never *)
(* visible.                                                                *)
(*                                                                         *)
(* The store is common to all workers, the cache is not: a put forgets     *)
(* the cached base vector of the worker which puts and of no other.  So    *)
(* caching is sound with one worker only, and `Cached` (one worker) is     *)
(* the condition under which the implementation does it.                   *)
(*                                                                         *)
(* All histories of at most MaxLen gets and puts, for every configuration, *)
(* are behaviours of this model; each maximal one is printed and replayed  *)
(* on the real handles.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Scales, Emit, Workers

W == 1..Workers
H == 1..3
(* cell of each handle (handles may share one), base (0: none; only handles *)
(* of a smaller number), scale (99: none)                                   *)
CellMaps == {<<1, 2, 3>>, <<1, 2, 1>>, <<1, 2, 2>>}
BaseMaps == {b \in [H -> 0..2] : \A h \in H : b[h] < h}
Configs == {<<cm, b, sc>> : cm \in CellMaps, b \in {x \in BaseMaps : x[3] # 0}, sc \in Scales}
ScaleOf(k) == CASE k = 0 -> <<99, 99, 99>> [] k = 1 -> <<99, 2, 99>> [] k = 2 -> <<-1, 99, 3>> [] k = 3 -> <<99, 2, 0>>

VARIABLES cell, base, scale,     \* the configuration
          store,                 \* cell -> value
          cache,                 \* worker -> <<base handle, value>> or <<0, 0>>
          puts, hist, lastok
vars == <<cell, base, scale, store, cache, puts, hist, lastok>>

Cached == Workers = 1

Scaled(h, x) == IF scale[h] = 99 THEN x ELSE scale[h] * x

(* the meaning of reading a handle *)
RECURSIVE Value(_)
Value(h) == Scaled(h, store[cell[h]] - IF base[h] = 0 THEN 0 ELSE Value(base[h]))

(* reading as implemented: result and cache afterwards *)
RECURSIVE Read(_, _)
Read(h, ca) ==
    IF base[h] = 0 THEN <<Scaled(h, store[cell[h]]), ca>>
    ELSE IF Cached /\ ca[1] = base[h] THEN <<Scaled(h, store[cell[h]] - ca[2]), ca>>
    ELSE LET r == Read(base[h], ca)
         IN <<Scaled(h, store[cell[h]] - r[1]), <<base[h], r[1]>>>>

NewValue(n) == CASE n = 0 -> 7 [] n = 1 -> -40 [] n = 2 -> 300 [] n = 3 -> 2000 [] n = 4 -> -10000
                 [] n = 5 -> 70000 [] OTHER -> 500000

Init == /\ \E c \in Configs : cell = c[1] /\ base = c[2] /\ scale = ScaleOf(c[3])
        /\ store = [i \in 1..3 |-> <<5, 11, 23>>[i]]
        /\ cache = [w \in W |-> <<0, 0>>]
        /\ puts = 0 /\ hist = <<>> /\ lastok = TRUE

Get(w, h) == LET r == Read(h, cache[w]) IN
             /\ cache' = [cache EXCEPT ![w] = r[2]]
             /\ lastok' = (r[1] = Value(h))
             /\ hist' = Append(hist, <<"get", h, 0, w>>)
             /\ UNCHANGED <<cell, base, scale, store, puts>>
Put(w, h) == /\ store' = [store EXCEPT ![cell[h]] = NewValue(puts)]
             /\ cache' = [cache EXCEPT ![w] = <<0, 0>>]
             /\ puts' = puts + 1
             /\ hist' = Append(hist, <<"put", h, NewValue(puts), w>>)
             /\ lastok' = TRUE
             /\ UNCHANGED <<cell, base, scale>>

(* workers are alike: a worker acts first only after those before it *)
Acted == {hist[i][4] : i \in 1..Len(hist)}
Next == /\ Len(hist) < MaxLen
        /\ \E w \in {x \in W : x = 1 \/ (x - 1) \in Acted}, h \in H : Get(w, h) \/ Put(w, h)
Spec == Init /\ [][Next]_vars

Fresh == lastok
Emitted == ~Emit \/ Len(hist) < MaxLen \/ hist[MaxLen][1] # "get"
           \/ PrintT("HIST " \o ToJson([cell |-> cell, base |-> base, scale |-> scale, ops |-> hist,
                                        workers |-> Workers]))
=============================================================================
