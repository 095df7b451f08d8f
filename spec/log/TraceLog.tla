------------------------------ MODULE TraceLog ------------------------------
(* Histories of the deterministic scheduler (call/ret/sinks).                  *)
EXTENDS Log, TraceBase
TInit == S = {Fresh} /\ TraceStart
T5 == 0..3
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED S
    \/ IsEvent("call") /\ Call(ev.t, ev.k, ev.a, ev.b)
    \/ IsEvent("ret") /\ Ret(ev.t, ev.rc)
    \/ IsEvent("sinks") /\ ev.bad = 0 /\ Sinks(ev.so, ev.se, ev.sc, ev.sf, ev.keep) /\ UNCHANGED S
    \/ IsEvent("init") /\ ev.bad = 0 /\ UNCHANGED S
         /\ IF ev.failed THEN ev.rc < 0 /\ ev.err # 0 /\ ev.live = 0 ELSE ev.rc = 0
    \/ IsEvent("term") /\ ev.bad = 0 /\ ev.live = 0 /\ UNCHANGED S /\ (ev.rc = 0 <=> ev.was)
    \/ IsEnd /\ UNCHANGED S
TSpec == TInit /\ [][TNext]_<<S, l>>
=============================================================================
