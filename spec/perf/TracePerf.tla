----------------------------- MODULE TracePerf -----------------------------
EXTENDS Perf, TraceBase
VARIABLE s
Init == TraceStart /\ s = Idle
Other == ev.op \notin {"begin", "end"} /\ l' = l + 1 /\ s' = Step(s, ev) /\ s'.ok
Next == (IsEvent("begin") /\ s' = Idle) \/ Other \/ (IsEnd /\ UNCHANGED s)
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
