---------------------------- MODULE TraceOption ----------------------------
EXTENDS Option, TraceBase
TNext ==
    \/ IsEvent("begin")
    \/ /\ IsEvent("at") /\ ev.same
       /\ <<ev.id, ev.val>> \in Answers(ev.tab, ev.args[ev.idx + 1])
    \/ IsEnd
TSpec == TraceStart /\ [][TNext]_l
=============================================================================
