------------------------------ MODULE TraceHeap ------------------------------
EXTENDS Heap, TraceBase
TInit == h = {} /\ live = FALSE /\ TraceStart
Common == ev.sz = Cardinality(h')
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED vars
    \/ IsEvent("init") /\ DoInit(ev.ok, ev.failed, ev.big) /\ Common
    \/ IsEvent("add") /\ Add(ev.k, ev.id, ev.ok, ev.failed) /\ Common
    \/ IsEvent("peek") /\ Peek(<<ev.k, ev.id>>) /\ Common
    \/ IsEvent("pop") /\ Pop(<<ev.k, ev.id>>) /\ Common
    \/ IsEvent("clear") /\ Clear /\ Common
    \* the keys 0..n-1 in some order, the cut least taken out and put back, all taken out
    \/ IsEvent("bulk") /\ UNCHANGED vars /\ ev.ok /\ ev.s1 = ev.n /\ ev.s2 = ev.n - ev.cut /\ ev.s3 = ev.n /\ ev.s4 = 0
         /\ ev.first = (IF ev.cut = 0 THEN <<>> ELSE <<<<0, ev.cut - 1>>>>) /\ ev.rest = <<<<0, ev.n - 1>>>>
    \/ IsEvent("term") /\ Term
    \/ IsEnd /\ ~live /\ ev.live = 0 /\ ev.bad = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
