---------------------------- MODULE TraceRotate ----------------------------
EXTENDS Rotate, TraceBase
TInit == RInit /\ TraceStart
W == <<ev.v1, ev.v2, ev.v3>>
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED rvars
    \/ IsEvent("restart") /\ ev.rc = 0 /\ W = view /\ on' = 0 /\ UNCHANGED <<view, n>>
    \/ IsEvent("file") /\ Open(ev.f, ev.rc, ev.fault, W)
    \/ IsEvent("log") /\ ~ev.fault /\ Log(ev.f, ev.k, ev.bytes, ev.last, ev.rc, W)
    \/ IsEvent("log") /\ ev.fault /\ LogFault(ev.f, ev.k, ev.bytes, ev.last, ev.rc, W)
    \/ IsEvent("nolog") /\ on = 0 /\ ev.rc = 0 /\ W = view /\ UNCHANGED rvars
    \* a file that is there already, of Base * 2^20 + 1 bytes: rotated at the first line
    \/ IsEvent("huge") /\ ev.rc = 0 /\ ev.ok /\ ev.pmb = ev.mb /\ ev.cs \in {0, 1} /\ UNCHANGED rvars
    \/ IsEnd /\ ev.fds = 0 /\ UNCHANGED rvars
TSpec == TInit /\ [][TNext]_<<rvars, l>>
=============================================================================
