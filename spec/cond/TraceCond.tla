------------------------------ MODULE TraceCond ------------------------------
EXTENDS Cond, TraceBase
TInit == S = Start /\ TraceStart
T5 == 0..5
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED S
    \/ IsEvent("call") /\ Call(ev.t, ev.k, ev.v)
    \/ IsEvent("ret") /\ Ret(ev.t, ev.k, ev.v)
    \/ IsEvent("stuck") /\ Stuck /\ ev.bad = 0 /\ UNCHANGED S
    \/ IsEvent("quiet") /\ Quiet /\ ev.bad = 0 /\ UNCHANGED S
    \/ IsEvent("term") /\ ev.rc = 0 /\ ev.bad = 0 /\ (ev.stuck = 0 => ev.live = 0) /\ UNCHANGED S
    \* initialisation and destruction: a failed call is reported, nothing is left behind
    \/ IsEvent("init") /\ ev.bad = 0 /\ UNCHANGED S
         /\ IF ev.failed THEN ev.rc < 0 /\ ev.err # 0 /\ ev.live = 0 ELSE ev.rc = 0
    \/ IsEvent("term1") /\ ev.bad = 0 /\ ev.live = 0 /\ UNCHANGED S
         /\ IF ev.failed THEN ev.rc < 0 /\ ev.err # 0 ELSE ev.rc = 0
    \/ IsEnd /\ UNCHANGED S
TSpec == TInit /\ [][TNext]_<<S, l>>
=============================================================================
