------------------------------- MODULE Array -------------------------------
(* A dynamic array as a sequence of element identifiers.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES a, live, room   \* room: size limit in elements (0: none)
vars == <<a, live, room>>

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* the order used by the driver's comparator: four identifiers compare equal
Class(x) == x \div 4

Init0 == a = << >> /\ live = FALSE /\ room = 0
DoInit == live' = TRUE /\ a' = << >> /\ room' = room
\* an append may be refused only if an allocation failed or the size limit is near
Add(x, oom, failed) ==
    /\ live
    /\ IF oom
       THEN a' = a /\ (failed \/ (room > 0 /\ 2 * Len(a) > room))
       ELSE a' = Append(a, x)
    /\ UNCHANGED <<live, room>>
\* the element may be one of the array itself
AddElem(i, x, oom, failed) == i \in 0..Len(a)-1 /\ x = a[i + 1] /\ Add(x, oom, failed)
\* many appends at once
Fill(n, m) == live /\ a' = a \o [i \in 1..n |-> ((i - 1) % m) + 1] /\ UNCHANGED <<live, room>>
FirstAt(x) == (CHOOSE i \in 1..Len(a) : a[i] = x /\ \A j \in 1..i-1 : a[j] # x) - 1
\* nested iteration, left early: the first lim elements with an even id and where each is first
Scan(lim, res) ==
    LET ev0 == SelectSeq(a, LAMBDA x : x % 2 = 0)
        k == IF Len(ev0) < lim THEN Len(ev0) ELSE lim
    IN /\ live /\ Len(res) = 2 * k
       /\ \A i \in 1..k : res[2 * i - 1] = ev0[i] /\ res[2 * i] = FirstAt(ev0[i])
       /\ UNCHANGED vars
\* indices are zero-based in the interface
Del(i) == live /\ i \in 0..Len(a)-1 /\ a' = RemoveAt(a, i + 1) /\ UNCHANGED <<live, room>>
DelUnordered(i) ==
    /\ live /\ i \in 0..Len(a)-1
    /\ a' = Front([a EXCEPT ![i + 1] = a[Len(a)]])
    /\ UNCHANGED <<live, room>>
DelLast == live /\ Len(a) > 0 /\ a' = Front(a) /\ UNCHANGED <<live, room>>
Clear == live /\ a' = << >> /\ UNCHANGED <<live, room>>
IsPerm(s, t) == /\ Len(s) = Len(t)
                /\ \A x \in {s[i] : i \in 1..Len(s)} \cup {t[i] : i \in 1..Len(t)} :
                     Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(t) : t[i] = x})
Ordered(s) == \A i \in 1..Len(s)-1 : Class(s[i]) <= Class(s[i + 1])
Sort(res) == live /\ IsPerm(a, res) /\ Ordered(res) /\ a' = res /\ UNCHANGED <<live, room>>
\* observers
Dump(at, each, last) ==
    /\ live
    /\ at = a
    /\ each = a
    /\ last = (IF a = << >> THEN 0 ELSE a[Len(a)])
    /\ UNCHANGED vars
Term == live /\ live' = FALSE /\ a' = << >> /\ room' = room
=============================================================================
