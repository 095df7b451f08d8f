----------------------------- MODULE TraceTime -----------------------------
EXTENDS Time, TraceBase
VARIABLES left, last
vars == <<left, last>>
NoSleep == [on |-> FALSE]
Init == TraceStart /\ left = NoSleep /\ last = [ms |-> << >>, ns |-> << >>]
Read == IsEvent("read") /\ ev.r = Reading(ev.f, ev.clk) /\ UNCHANGED vars
Begin == IsEvent("sleep") /\ ~left.on /\ left' = [on |-> TRUE, rest |-> Span(ev.ms), res |-> "none"] /\ UNCHANGED last
\* each call asks for exactly what is left
Nano == /\ IsEvent("nano") /\ left.on /\ left.res \in {"none", "eintr"}
        /\ ev.ask = left.rest
        /\ left' = [left EXCEPT !.rest = ev.rem, !.res = ev.res] /\ UNCHANGED last
Nothing == << << >>, 0>>
Slept == /\ IsEvent("slept") /\ left.on /\ UNCHANGED last /\ left' = NoSleep
         /\ IF left.res = "fail" THEN ev.rc < 0 ELSE ev.rc = 0 /\ (left.res = "ok" \/ left.rest = Nothing)
\* the real clocks: each reading lies between two of the system's own
Real == /\ IsEvent("real") /\ UNCHANGED left
        /\ (\A k \in {"time_ms", "time_ns", "mono_ms", "mono_ns"} :
              LET a == ev.a IN Le(Reading(k, ev.a), ev[k]) /\ Le(ev[k], Reading(k, ev.b)))
        /\ Le(last.ms, ev.mono_ms) /\ Le(last.ns, ev.mono_ns)
        /\ last' = [ms |-> ev.mono_ms, ns |-> ev.mono_ns]
RealSleep == IsEvent("realsleep") /\ ev.rc = 0 /\ ev.elapsed_us >= ev.ms * 1000 /\ UNCHANGED vars
Next == (IsEvent("begin") /\ UNCHANGED vars) \/ Read \/ Begin \/ Nano \/ Slept \/ Real \/ RealSleep \/ (IsEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_<<l, vars>>
=============================================================================
