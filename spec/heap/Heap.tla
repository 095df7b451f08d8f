-------------------------------- MODULE Heap --------------------------------
(* A priority queue as a set of entries <<key, id>>; ids are unique and stand  *)
(* for the data pointers.  Keys are 64-bit: <<high, low>> pairs would not fit   *)
(* TLC integers comfortably, so the driver logs the rank of each key in the     *)
(* chunk's sorted key table; order of ranks = order of keys.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES h, live
vars == <<h, live>>
NoEntry == <<-1, -1>>
Minimal(e) == e \in h /\ \A f \in h : e[1] <= f[1]

DoInit(ok, failed, big) == ~live /\ (~ok => failed \/ big) /\ live' = ok /\ h' = {}
Add(k, id, ok, failed) ==
    /\ live /\ live' = live
    /\ IF ok THEN h' = h \cup {<<k, id>>} ELSE failed /\ h' = h
Peek(e) == /\ live
           /\ IF h = {} THEN e = NoEntry ELSE Minimal(e)
           /\ UNCHANGED vars
Pop(e) == /\ live /\ live' = live
          /\ IF h = {} THEN e = NoEntry /\ h' = h
             ELSE Minimal(e) /\ h' = h \ {e}
Clear == live /\ h' = {} /\ live' = live
Term == live /\ live' = FALSE /\ h' = {}
=============================================================================
