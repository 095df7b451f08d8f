------------------------------ MODULE TraceFmt ------------------------------
EXTENDS Fmt, TraceBase
TInit == TraceStart
TNext ==
    \/ IsEvent("begin")
    \/ IsEvent("fmt") /\ ev.clean /\ FmtOk(ev.f, ev.args, ev.sz, ev.rc, ev.out)
    \/ IsEvent("log") /\ LogOk(ev.f, ev.args, ev.sz, ev.out)
    \/ IsEnd
TSpec == TInit /\ [][TNext]_l
=============================================================================
