------------------------------ MODULE TraceCrc ------------------------------
EXTENDS Crc, TraceBase
Next ==
    \/ IsEvent("begin")
    \/ IsEvent("crc") /\ ev.r = Crc(ev.init, ev.d) /\ ev.chain = ev.r /\ ev.again = ev.r
    \/ IsEvent("zrun") /\ ev.r = CrcZ(ev.init, ev.pre, ev.n, ev.suf) /\ ev.chain = ev.r
    \/ IsEnd
Spec == TraceStart /\ [][Next]_l
=============================================================================
