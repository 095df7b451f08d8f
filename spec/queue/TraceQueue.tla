----------------------------- MODULE TraceQueue -----------------------------
EXTENDS Queue, TraceBase
TInit == q = << >> /\ live = FALSE /\ TraceStart /\ room = ev.room
Common == ev.sz = Len(q') /\ ev.empty = (q' = << >>)
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED vars
    \/ IsEvent("init") /\ DoInit(ev.oom, ev.failed)
    \/ IsEvent("addl") /\ AddLast(ev.x, ev.oom, ev.failed) /\ Common
    \/ IsEvent("addf") /\ AddFirst(ev.x, ev.oom, ev.failed) /\ Common
    \/ IsEvent("addel") /\ AddElemLast(ev.i, ev.x, ev.oom, ev.failed) /\ Common
    \/ IsEvent("addef") /\ AddElemFirst(ev.i, ev.x, ev.oom, ev.failed) /\ Common
    \/ IsEvent("fill") /\ Fill(ev.n, ev.m) /\ Common
    \/ IsEvent("drain") /\ Drain(ev.n, ev.bad) /\ Common
    \/ IsEvent("scan") /\ Scan(ev.lim, ev.res, ev.walk) /\ Common
    \/ IsEvent("dell") /\ DelLast(ev.ret) /\ Common
    \/ IsEvent("delf") /\ DelFirst(ev.ret) /\ Common
    \/ IsEvent("clear") /\ Clear /\ Common
    \/ IsEvent("dump") /\ Dump(ev.at, ev.each, ev.first, ev.last, ev.empty) /\ Common
    \/ IsEvent("term") /\ Term
    \/ IsEnd /\ ~live /\ ev.live = 0 /\ ev.bad = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
