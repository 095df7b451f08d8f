------------------------------ MODULE TraceUri ------------------------------
EXTENDS Uri, TraceBase
Want == Split(ev.t)
TNext ==
    \/ IsEvent("begin")
    \/ /\ IsEvent("parse")
       /\ IF ev.ok THEN Want.ok /\ ev.parts = Want.parts /\ ev.str = ev.t
          ELSE ~Want.ok \/ Want.empty_port \/ ev.failed
       /\ ev.input
    \/ IsEnd /\ ev.live = 0 /\ ev.bad = 0
TSpec == TraceStart /\ [][TNext]_l
=============================================================================
