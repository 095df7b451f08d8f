------------------------------- MODULE Queue -------------------------------
(* A double-ended queue as a sequence.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES q, live, room
vars == <<q, live, room>>
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

DoInit(oom, failed) == /\ ~live /\ (oom => failed)
                       /\ live' = ~oom /\ q' = << >> /\ room' = room
Refused(failed) == failed \/ (room > 0 /\ Len(q) + 1 > room \div 2)
AddLast(x, oom, failed) == /\ live /\ UNCHANGED <<live, room>>
                           /\ IF oom THEN Refused(failed) /\ q' = q ELSE q' = Append(q, x)
AddFirst(x, oom, failed) == /\ live /\ UNCHANGED <<live, room>>
                            /\ IF oom THEN Refused(failed) /\ q' = q ELSE q' = <<x>> \o q
DelLast(r) == live /\ q # << >> /\ r = Last(q) /\ q' = Front(q) /\ UNCHANGED <<live, room>>
DelFirst(r) == live /\ q # << >> /\ r = Head(q) /\ q' = Tail(q) /\ UNCHANGED <<live, room>>
Clear == live /\ q' = << >> /\ UNCHANGED <<live, room>>
\* the element may be one of the queue itself
AddElemLast(i, x, oom, failed) == i \in 0..Len(q)-1 /\ x = q[i + 1] /\ AddLast(x, oom, failed)
AddElemFirst(i, x, oom, failed) == i \in 0..Len(q)-1 /\ x = q[i + 1] /\ AddFirst(x, oom, failed)
\* many at once
Fill(n, k) == live /\ q' = q \o [i \in 1..n |-> ((i - 1) % k) + 1] /\ UNCHANGED <<live, room>>
Drain(n, bad) == live /\ n <= Len(q) /\ bad = 0 /\ q' = SubSeq(q, n + 1, Len(q)) /\ UNCHANGED <<live, room>>
FirstAt(x) == (CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..i-1 : q[j] # x) - 1
\* nested iteration, left early: the first lim elements with an even id and where each is first;
\* and iteration by index variables
Scan(lim, res, walk) ==
    LET even == SelectSeq(q, LAMBDA x : x % 2 = 0)
        k == IF Len(even) < lim THEN Len(even) ELSE lim
    IN /\ live /\ Len(res) = 2 * k
       /\ \A i \in 1..k : res[2 * i - 1] = even[i] /\ res[2 * i] = FirstAt(even[i])
       /\ walk = q
       /\ UNCHANGED vars
\* indexed access, iteration, iteration by index, peeks, emptiness
Dump(at, each, first, last, empty) ==
    /\ live
    /\ at = q /\ each = q
    /\ empty = (q = << >>)
    /\ q # << >> => first = Head(q) /\ last = Last(q)
    /\ UNCHANGED vars
Term == live /\ live' = FALSE /\ q' = << >> /\ room' = room
=============================================================================
