------------------------------ MODULE TraceTimer ------------------------------
EXTENDS Timer, TraceBase
\* 64-bit times: three limbs, most significant first
B == 4194304
WZero == <<0, 0, 0>>
WPlus(a, b) ==
    LET c == a[3] + b[3]
        m == a[2] + b[2] + (c \div B)
    IN  <<a[1] + b[1] + (m \div B), m % B, c % B>>
WPlusTick(a) == WPlus(a, <<0, 0, Tick>>)
WLeq(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3]))
\* an expiry time beyond the largest clock value stays there
Capped(a, top) == IF WLeq(a, top) THEN a ELSE top
WPhase(a) == a[3] % Tick
\* Mode "safety" (C06) leaves out lateness and the returned hint, which are C07's
Progress == IOEnv.MODE = "progress"
TInit == now = Zero /\ pend = {} /\ polling = FALSE /\ must = {} /\ TraceStart
PollEndAny == polling /\ polling' = FALSE /\ must' = {} /\ UNCHANGED <<now, pend>>
\* in progress mode a callback for a timer that is not pending or not due is C06's business
FireAny(n) == polling /\ pend' = {p \in pend : p.n # n} /\ must' = must \ {n} /\ UNCHANGED <<now, polling>>
FiresAny(n, k) == polling /\ pend' = Less(n, k) /\ must' = {m \in must : m # n \/ \E p \in pend' : p.n = m} /\ UNCHANGED <<now, polling>>
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED vars
    \/ IsEvent("add") /\ Add(ev.n, Capped(Due(ev.t), ev.top), ev.id, ev.ok, ev.failed)
    \/ IsEvent("cancel") /\ Cancel(ev.n) /\ ev.inv
    \/ IsEvent("bulk") /\ Bulk(ev.n, ev.k, Capped(Due(ev.t), ev.top), ev.ok)
    \/ IsEvent("bcancel") /\ BulkCancel(ev.n, ev.k) /\ ev.inv
    \/ IsEvent("fires") /\ (IF Progress THEN FiresAny(ev.n, ev.k) ELSE Fires(ev.n, ev.k, ev.due) /\ ev.ok)
    \/ IsEvent("cancelnone") /\ ev.inv /\ UNCHANGED vars
    \/ IsEvent("clear") /\ Clear
    \/ IsEvent("term") /\ Clear
    \/ IsEvent("poll") /\ PollStart(ev.ts)
    \/ IsEvent("fire") /\ (IF Progress THEN FireAny(ev.n) ELSE Fire(ev.n, ev.due) /\ ev.typeok /\ ev.argok)
    \/ IsEvent("pollend") /\ (IF Progress THEN PollEnd(ev.ret) ELSE PollEndAny)
    \/ IsEnd /\ ~polling /\ ev.live = 0 /\ ev.bad = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
Late == Progress => NoOverdue
=============================================================================
