------------------------------ MODULE TraceBuf ------------------------------
EXTENDS Buf, TraceBase
TInit == b = [i \in 0..1 |-> Down] /\ TraceStart
E == <<ev.rp[ev.i + 1], ev.wp[ev.i + 1], ev.cap[ev.i + 1], ev.valid[ev.i + 1]>>
\* every buffer in use, read back: positions, capacity, validity, size and quota
Seen == \A i \in 0..1 : b'[i].up => LET r == b'[i] k == i + 1 IN
           /\ ev.rp[k] = r.rp /\ ev.wp[k] = r.wp /\ ev.cap[k] = r.cap /\ ev.valid[k] = r.ok
           /\ ev.sz[k] = r.wp - r.rp /\ ev.quota[k] = r.cap - r.wp
\* one value of n bytes between two marker bytes (text stands alone), whatever n is;
\* rest: unread bytes, then the positions after compacting
Bulk(e) ==
    LET str == e.kind \in {"str", "strlen", "fmt"}
        txt == e.kind = "text"
        pre == IF str THEN 9 ELSE IF e.kind = "blob" THEN 8 ELSE 0
    IN  /\ e.total = (IF txt THEN e.n + 1 ELSE e.n + pre + 2)
        /\ e.head = (IF pre > 0 THEN e.n ELSE 0)
        /\ e.k = (IF e.kind = "data" THEN 2 * e.n ELSE 0)
        /\ e.rest = 110
        /\ e.m1 = (IF txt THEN 0 ELSE 161) /\ e.m2 = (IF txt THEN 0 ELSE 178)
        /\ e.eq /\ e.ok
TNext ==
    \/ IsEvent("bulk") /\ Bulk(ev) /\ UNCHANGED vars
    \/ IsEvent("begin") /\ UNCHANGED vars
    \/ IsEvent("init") /\ Init1(ev.i, ev.n, ev.ret, ev.failed) /\ Seen
    \/ IsEvent("wrap") /\ Wrap(ev.i, ev.n, ev.ref, ev.data, ev.x) /\ Seen
    \/ IsEvent("term") /\ Term(ev.i) /\ Seen
    \/ IsEvent("limit") /\ Limit(ev.i, ev.n) /\ Seen
    \/ IsEvent("clear") /\ Clear(ev.i) /\ Seen
    \/ IsEvent("compact") /\ Compact(ev.i) /\ Seen
    \/ IsEvent("reserve") /\ Reserve(ev.i, ev.n, ev.ret, ev.failed, E) /\ Seen
    \/ IsEvent("shrink") /\ Shrink(ev.i, ev.n, ev.ret, ev.failed, E) /\ Seen
    \/ IsEvent("put") /\ PutK(ev.i, ev.x, 1, ev.failed, E) /\ Seen
    \/ IsEvent("putstr") /\ PutK(ev.i, IF ev.x = <<-1>> THEN NullLen ELSE StrBytes(ev.x), 3, ev.failed, E) /\ Seen
    \/ IsEvent("putblob") /\ PutK(ev.i, LE(Len(ev.x), 8) \o ev.x, 2, ev.failed, E) /\ Seen
    \/ IsEvent("putfmt") /\ PutFmt(ev.i, ev.x, ev.failed, E) /\ Seen
    \/ IsEvent("puttext") /\ PutText(ev.i, ev.x, ev.failed, E) /\ Seen
    \/ IsEvent("set") /\ SetAt(ev.i, ev.at, ev.x) /\ Seen
    \/ IsEvent("setw") /\ SetAt(ev.i, b[ev.i].wp, ev.x) /\ Seen
    \/ IsEvent("setdata") /\ SetAt(ev.i, ev.at, ev.x) /\ Seen
                          /\ ev.ret = IF b'[ev.i].ok THEN Len(ev.x) ELSE 0
    \/ IsEvent("wput") /\ Written(ev.i, ev.x) /\ Seen
    \/ IsEvent("setrpos") /\ SetRpos(ev.i, ev.n) /\ Seen
    \/ IsEvent("setwpos") /\ SetWpos(ev.i, ev.n) /\ Seen
    \/ IsEvent("peekat") /\ Peek(ev.i, ev.at, ev.n, ev.v) /\ Seen
    \/ IsEvent("peek") /\ Peek(ev.i, b[ev.i].rp, ev.n, ev.v) /\ Seen
    \/ IsEvent("peekdata") /\ Peek(ev.i, ev.at, ev.n, ev.v) /\ Seen
                           /\ ev.ret = IF b'[ev.i].ok THEN ev.n ELSE 0
    \/ IsEvent("get") /\ Get(ev.i, ev.n, ev.v) /\ Seen
    \/ IsEvent("getbool") /\ GetBool(ev.i, ev.ret) /\ Seen
    \/ IsEvent("getblob") /\ Blob(ev.i, ev.n, ev.v, E) /\ Seen
    \/ IsEvent("getstr") /\ GetStr(ev.i, ev.v, E) /\ Seen
    \/ IsEvent("rget") /\ Consumed(ev.i, ev.n, ev.v) /\ Seen
    \/ IsEvent("move") /\ Move(ev.i, ev.j) /\ Seen
    \/ IsEvent("dump") /\ UNCHANGED b /\ Seen /\ Match(SubSeq(b[ev.i].mem, 1, b[ev.i].wp), ev.v)
    \/ IsEvent("lens") /\ UNCHANGED b
         /\ ev.str = (IF ev.x = <<-1>> THEN 8 ELSE Len(ev.x) + 9) /\ ev.blob = ev.n + 8
         /\ ev.fixed = <<1, 1, 2, 4, 8, 8>>
    \/ IsEnd /\ (\A i \in 0..1 : ~b[i].up) /\ ev.live = 0 /\ ev.bad = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
