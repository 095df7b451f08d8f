------------------------------ MODULE TraceList ------------------------------
EXTENDS List, TraceBase
TInit == TraceStart /\ L = [i \in 1..ev.nl |-> << >>]
SetOf(s) == {s[i] : i \in 1..Len(s)}
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED vars
    \/ IsEvent("addh") /\ AddHead(ev.i, ev.e)
    \/ IsEvent("addt") /\ AddTail(ev.i, ev.e)
    \/ IsEvent("fill") /\ Fill(ev.i, ev.a, ev.b)
    \/ IsEvent("adda") /\ AddAfter(ev.i, ev.p, ev.e)
    \/ IsEvent("addb") /\ AddBefore(ev.i, ev.p, ev.e)
    \/ IsEvent("del") /\ Del(ev.e)
    \/ IsEvent("poph") /\ PopHead(ev.i, ev.ret)
    \/ IsEvent("popt") /\ PopTail(ev.i, ev.ret)
    \/ IsEvent("clear") /\ Clear(ev.i)
    \/ IsEvent("itdel") /\ IterDel(ev.i, SetOf(ev.set), ev.rev, ev.visited)
    \/ IsEvent("itmove") /\ IterMove(ev.i, ev.j, SetOf(ev.set), ev.rev, ev.visited)
    \/ IsEvent("dump") /\ Dump(ev.i, ev.fwd, ev.bwd, ev.head, ev.tail, ev.count, ev.empty)
    \/ IsEnd /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
