---------------------------- MODULE TraceThread ----------------------------
EXTENDS Thread, TraceBase
TInit == Start0 /\ TraceStart
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED vars
    \/ IsEvent("scall") /\ StartCall(ev.o, ev.k)
    \/ IsEvent("run") /\ Begin(ev.k, ev.arg)
    \/ IsEvent("fin") /\ Finish(ev.k, ev.v)
    \/ IsEvent("sret") /\ StartRet(ev.o, ev.k, ev.rc, ev.err, ev.failed)
    \/ IsEvent("join") /\ JoinRet(ev.o, ev.rc, ev.v, ev.err, ev.failed)
    \/ IsEvent("lock") /\ Lock(ev.m, ev.t)
    \/ IsEvent("unlock") /\ Unlock(ev.m, ev.t)
    \/ IsEvent("quiet") /\ ev.bad = 0 /\ ev.live = 0 /\ AllRan /\ (\A m \in Objs : own[m] = Nobody) /\ UNCHANGED vars
    \/ IsEvent("minit") /\ ev.bad = 0 /\ UNCHANGED vars
         /\ IF ev.failed THEN ev.rc = -1 /\ ev.live = 0 ELSE ev.rc = 0 /\ ev.live = 1
    \/ IsEvent("mterm") /\ ev.bad = 0 /\ ev.live = 0 /\ UNCHANGED vars /\ ev.rc = IF ev.failed THEN -1 ELSE 0
    \/ IsEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
