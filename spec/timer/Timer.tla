-------------------------------- MODULE Timer --------------------------------
(* A set of timers driven by polls of a caller-supplied monotone clock.        *)
(* Times are offsets from the clock value given at initialisation; the model   *)
(* uses small numbers for them, the traces 64-bit values.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tick,            \* ticks are this long, a number
          Zero,            \* time 0
          Plus(_, _), PlusTick(_), Leq(_, _),
          Phase(_)         \* time modulo Tick, a number
VARIABLES now,      \* latest clock value given to the timer set
          pend,     \* set of [n: serial, due: expiry time, id: identifier]
          polling,  \* inside a poll (callbacks may run)
          must      \* serials that this poll must have fired before it ends
vars == <<now, pend, polling, must>>
NoId == "none"
\* a bulk of timers with one expiry time is one element of pend, with how many are left (k); its serial is negative
Due(T) == Plus(now, T)

DoInit == now' = Zero /\ pend' = {} /\ polling' = FALSE /\ must' = {}
Add(n, due, id, ok, failed) ==
    /\ \A p \in pend : p.n # n
    /\ IF ok THEN /\ \A p \in pend : p.id # id          \* identifiers of live timers differ
                  /\ pend' = pend \cup {[n |-> n, due |-> due, id |-> id, k |-> 1]}
       ELSE failed /\ pend' = pend
    /\ UNCHANGED <<now, polling, must>>
Bulk(n, k, due, ok) ==
    /\ \A p \in pend : p.n # n
    /\ ok /\ pend' = IF k = 0 THEN pend ELSE pend \cup {[n |-> n, due |-> due, id |-> NoId, k |-> k]}
    /\ UNCHANGED <<now, polling, must>>
\* k of a bulk are gone
Less(n, k) == {IF p.n = n THEN [p EXCEPT !.k = @ - k] ELSE p : p \in {q \in pend : q.n # n \/ q.k > k}}
BulkCancel(n, k) ==
    /\ k > 0 => \E p \in pend : p.n = n /\ p.k >= k
    /\ pend' = Less(n, k)
    /\ must' = {m \in must : \E p \in pend' : p.n = m}
    /\ UNCHANGED <<now, polling>>
Cancel(n) ==
    /\ \E p \in pend : p.n = n
    /\ pend' = {p \in pend : p.n # n}
    /\ must' = must \ {n}
    /\ UNCHANGED <<now, polling>>
Clear == pend' = {} /\ must' = {} /\ UNCHANGED <<now, polling>>
PollStart(ts) ==
    /\ ~polling /\ Leq(now, ts)
    /\ now' = ts /\ polling' = TRUE
    /\ must' = {p.n : p \in {q \in pend : Leq(PlusTick(q.due), ts)}}
    /\ UNCHANGED pend
\* the expiry callback of timer n, with the scheduled time it reports
Fire(n, due) ==
    /\ polling
    /\ \E p \in pend : /\ p.n = n
                       /\ Leq(p.due, now)          \* never early
                       /\ due = p.due
                       /\ pend' = pend \ {p}    \* at most once
    /\ must' = must \ {n}
    /\ UNCHANGED <<now, polling>>
Fires(n, k, due) ==
    /\ polling
    /\ \E p \in pend : p.n = n /\ p.k >= k /\ Leq(p.due, now) /\ due = p.due
    /\ pend' = Less(n, k)
    /\ must' = {m \in must : m # n \/ \E p \in pend' : p.n = m}
    /\ UNCHANGED <<now, polling>>
PollEnd(ret) ==
    /\ polling /\ must = {}                      \* never later than one tick
    /\ ret = Tick - Phase(now)                 \* distance to the next tick boundary
    /\ polling' = FALSE
    /\ UNCHANGED <<now, pend, must>>

\* after a poll nothing that is a full tick overdue is left
NoOverdue == ~polling => \A p \in pend : ~Leq(PlusTick(p.due), now)
=============================================================================
