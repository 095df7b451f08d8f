------------------------------ MODULE TraceMap ------------------------------
EXTENDS Map, TraceBase

TInit == Init /\ TraceStart
Common == ev.sz = Cardinality(DOMAIN m') \* size after every call

\* n keys put, read, iterated; every third deleted; all put again; cleared
Bulk(e) == LET n == e.n
               d == (n + 2) \div 3
           IN  /\ e.put = <<0, 0, n>> /\ e.get = <<n, 0>> /\ e.each = <<n, n>> /\ e.del = <<d, 0, n - d>>
               /\ e.left = <<n - d, 0>> /\ e.again = <<n - d, d, n, n>> /\ e.clear = <<0, 0, 0>>
TNext ==
    \/ IsEvent("bulk") /\ Bulk(ev) /\ UNCHANGED vars
    \/ IsEvent("begin") /\ Init /\ UNCHANGED vars
    \/ IsEvent("init") /\ DoInit(ev.lf, ev.big, ev.ok, ev.failed) /\ Common
    \/ IsEvent("put") /\ Put(ev.k, ev.v, ev.ret, ev.found, ev.oom, ev.failed) /\ Common
    \/ IsEvent("get") /\ Get(ev.k, ev.ret, ev.found) /\ Common
    \/ IsEvent("del") /\ Del(ev.k, ev.ret, ev.found) /\ Common
    \/ IsEvent("clear") /\ Clear /\ Common
    \/ IsEvent("each") /\ Each(ev.items) /\ EachKey(ev.ks) /\ EachValue(ev.vs) /\ Common
    \/ IsEvent("scan") /\ Scan(ev.lim, ev.items, ev.inner, ev.ks, ev.vs) /\ Common
    \/ IsEvent("other") /\ Other(ev.bad) /\ Common
    \/ IsEvent("term") /\ Term
    \/ IsEnd /\ ~live /\ ev.live = 0 /\ ev.bad = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
