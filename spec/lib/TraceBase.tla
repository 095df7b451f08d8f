----------------------------- MODULE TraceBase -----------------------------
(* Shared part of every trace specification: the recorded events, one chunk   *)
(* per initial state, the cursor l.  A chunk starts with a "begin" event and   *)
(* finishes with an "end" event, on which the trace specification stutters,    *)
(* so that the only states without a successor are those whose next event the  *)
(* specification does not allow (CHECK_DEADLOCK rejects the trace there).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].op = "begin"}
ev == Trace[l]
TraceStart == l \in Starts
IsEvent(name) == ev.op = name /\ l' = l + 1
IsEnd == ev.op = "end" /\ l' = l
=============================================================================
