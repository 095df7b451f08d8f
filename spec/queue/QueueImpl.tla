----------------------------- MODULE QueueImpl -----------------------------
(* The ring behind the queue: capacity a power of two, one slot kept free,    *)
(* growth unrolls the ring into a block twice the size.                       *)
EXTENDS Queue
CONSTANT MaxCap
VARIABLES cap, first, last, ring, n, hist, lastop
mvars == <<q, live, room, cap, first, last, ring, n, hist, lastop>>
V == <<cap, first, last, lastop>>

MInit == /\ q = << >> /\ live = TRUE /\ room = 0
         /\ cap = 8 /\ first = 0 /\ last = 0 /\ ring = [i \in 0..7 |-> 0]
         /\ n = 1 /\ hist = "" /\ lastop = "init"
Step(txt, op) == n' = n + 1 /\ hist' = hist \o txt \o ";" /\ lastop' = op
Full == (last + 1) % cap = first
\* <<cap, first, last, ring>> with room for one more
Expanded == IF ~Full THEN <<cap, first, last, ring>>
            ELSE <<2 * cap, 0, cap - 1,
                   [i \in 0..2*cap-1 |-> IF i < cap THEN ring[(first + i) % cap] ELSE 0]>>
IAddLast == LET e == Expanded IN
    /\ e[1] <= MaxCap
    /\ cap' = e[1] /\ first' = e[2]
    /\ ring' = [e[4] EXCEPT ![e[3]] = n]
    /\ last' = (e[3] + 1) % e[1]
    /\ AddLast(n, FALSE, FALSE) /\ Step("addl " \o ToString(n), "a")
IAddFirst == LET e == Expanded  f == (e[2] + e[1] - 1) % e[1] IN
    /\ e[1] <= MaxCap
    /\ cap' = e[1] /\ last' = e[3]
    /\ ring' = [e[4] EXCEPT ![f] = n]
    /\ first' = f
    /\ AddFirst(n, FALSE, FALSE) /\ Step("addf " \o ToString(n), "a")
IDelLast == LET p == (last + cap - 1) % cap IN
    DelLast(ring[p]) /\ last' = p /\ UNCHANGED <<cap, first, ring>> /\ Step("dell", "d")
IDelFirst == DelFirst(ring[first]) /\ first' = (first + 1) % cap /\ UNCHANGED <<cap, last, ring>> /\ Step("delf", "d")
IClear == Clear /\ first' = 0 /\ last' = 0 /\ UNCHANGED <<cap, ring>> /\ Step("clear", "c")
MNext == IAddLast \/ IAddFirst \/ IDelLast \/ IDelFirst \/ IClear
MSpec == MInit /\ [][MNext]_mvars
Refines == /\ Len(q) = (last + cap - first) % cap
           /\ \A i \in 1..Len(q) : ring[(first + i - 1) % cap] = q[i]
\* the removal actions must be enabled whenever the abstract queue is not empty
NoStuck == q # << >> => ENABLED IDelFirst /\ ENABLED IDelLast
Emit == PrintT("T|" \o hist')
=============================================================================
