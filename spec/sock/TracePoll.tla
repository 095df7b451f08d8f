----------------------------- MODULE TracePoll -----------------------------
EXTENDS Poll, TraceBase
TInit == PInit /\ TraceStart
Text == ev.rc < 0 => ev.text
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED pvars
    \/ IsEvent("pinit") /\ Init(ev.p, ev.rc)
    \/ IsEvent("pterm") /\ Term(ev.p, ev.rc)
    \/ IsEvent("open") /\ Open(ev.i)
    \/ IsEvent("close") /\ Close(ev.i)
    \/ IsEvent("add") /\ Add(ev.p, ev.i, ev.e, ev.d, ev.refused, ev.rc) /\ Text
    \/ IsEvent("del") /\ Del(ev.p, ev.i, ev.e, ev.d, ev.refused, ev.rc) /\ Text
    \/ IsEvent("act") /\ Act(ev.i, ev.what)
    \/ IsEvent("wait") /\ ev.p \in alive /\ ~ev.refused /\ ev.rc = Len(ev.res) /\ Wait(ev.p, ev.r, ev.res)
         /\ (ev.rc = 0 => ev.ms >= ev.timeout - 1)
    \/ IsEvent("wait") /\ (ev.p \notin alive \/ ev.refused) /\ WaitFails(ev.p, ev.rc) /\ Text
    \/ IsEnd /\ UNCHANGED pvars
TSpec == TInit /\ [][TNext]_<<pvars, l>>
=============================================================================
