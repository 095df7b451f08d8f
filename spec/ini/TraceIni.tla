------------------------------ MODULE TraceIni ------------------------------
(* Each event is one parse: the text, how it was given (string, file, or a    *)
(* file whose reading fails after cut bytes), the items the callback received  *)
(* and the result.                                                              *)
EXTENDS Ini, TraceBase
Seen == [i \in 1..Len(ev.items) |-> Item(ev.items[i].n, ev.items[i].s, ev.items[i].k, ev.items[i].v)]
Same(r) == Seen = r.items /\
    IF ev.stop # 0 /\ Len(r.items) = ev.stop THEN ev.rc # 0 ELSE ev.rc = r.rc
\* after a read error: the lines read completely count, a partial last one may; then -1
Broken(t) == LET nl == Pos(t, {NL})
                 whole == IF nl = {} THEN << >> ELSE SubSeq(t, 1, Max(nl))
                 Fails(r) == Seen = r.items /\ IF ev.stop # 0 /\ Len(r.items) = ev.stop THEN ev.rc # 0
                                               ELSE ev.rc = IF r.rc = 0 THEN -1 ELSE r.rc
             IN  Fails(Parse(whole, ev.stop)) \/ Fails(Parse(t, ev.stop))
\* after pad empty lines
Shift(r, pad) == [items |-> [i \in 1..Len(r.items) |-> Item(r.items[i].n + pad, r.items[i].s, r.items[i].k, r.items[i].v)],
                  rc |-> IF r.rc > 0 THEN r.rc + pad ELSE r.rc]
TNext ==
    \/ IsEvent("lines") /\ Same(Shift(Parse(ev.t, ev.stop), ev.pad))
    \/ IsEvent("begin")
    \/ IsEvent("string") /\ Same(Parse(ev.t, ev.stop))
    \/ IsEvent("file") /\ Same(Parse(ev.t, ev.stop)) /\ ev.fds = 0
    \/ IsEvent("ferr") /\ Broken(ev.t) /\ ev.fds = 0
    \/ IsEvent("nofile") /\ ev.rc = -1 /\ ev.items = << >> /\ ev.fds = 0
    \/ IsEnd /\ ev.live = 0 /\ ev.bad = 0
TSpec == TraceStart /\ [][TNext]_l
=============================================================================
