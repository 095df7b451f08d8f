----------------------------- MODULE TraceArray -----------------------------
EXTENDS Array, TraceBase
TInit == a = << >> /\ live = FALSE /\ TraceStart /\ room = ev.room
Common == ev.sz = Len(a')
\* an empty array gets n elements, loses one and then the one behind it, is sorted,
\* cleared and filled again: the number of right elements (or the size) after each step
Bulk(e) == /\ live /\ a = << >> /\ ~e.oom
           /\ e.good = <<e.n, e.n - 1, e.n - 1, e.n - 3, e.n - 2, 0, e.n, e.n>>
TNext ==
    \/ IsEvent("bulk") /\ Bulk(ev) /\ UNCHANGED vars /\ Common
    \/ IsEvent("begin") /\ UNCHANGED vars
    \/ IsEvent("init") /\ DoInit /\ Common
    \/ IsEvent("add") /\ Add(ev.x, ev.oom, ev.failed) /\ Common
    \/ IsEvent("adde") /\ AddElem(ev.i, ev.x, ev.oom, ev.failed) /\ Common
    \/ IsEvent("fill") /\ Fill(ev.n, ev.m) /\ Common
    \/ IsEvent("scan") /\ Scan(ev.lim, ev.res) /\ Common
    \/ IsEvent("del") /\ Del(ev.i) /\ Common
    \/ IsEvent("delu") /\ DelUnordered(ev.i) /\ Common
    \/ IsEvent("dell") /\ DelLast /\ Common
    \/ IsEvent("clear") /\ Clear /\ Common
    \/ IsEvent("sort") /\ Sort(ev.res) /\ Common
    \/ IsEvent("dump") /\ Dump(ev.at, ev.each, ev.last) /\ Common
    \/ IsEvent("term") /\ Term /\ Common
    \/ IsEnd /\ ~live /\ ev.live = 0 /\ ev.bad = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
