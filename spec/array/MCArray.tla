------------------------------ MODULE MCArray ------------------------------
(* Array with capacity doubling, as the implementation does it: elems is the  *)
(* allocated block.  The block's prefix is the abstract array.  Every pair of  *)
(* consecutive operations at every length is printed as a command sequence.    *)
EXTENDS Array
CONSTANT MaxLen
VARIABLES cap, blk, n, hist, lastop
mvars == <<a, live, room, cap, blk, n, hist, lastop>>
V == <<Len(a), cap, lastop>>

MInit == a = << >> /\ live = TRUE /\ room = 0 /\ cap = 0 /\ blk = << >> /\ n = 1 /\ hist = "" /\ lastop = "init"
Step(txt, op) == n' = n + 1 /\ hist' = hist \o txt \o ";" /\ lastop' = op
MAdd == /\ Len(a) < MaxLen
        /\ LET c == IF cap = Len(a) THEN (IF cap = 0 THEN 8 ELSE 2 * cap) ELSE cap
               old == IF c = cap THEN blk ELSE [i \in 1..c |-> IF i <= cap THEN blk[i] ELSE 0]
           IN cap' = c /\ blk' = [old EXCEPT ![Len(a) + 1] = n]
        /\ Add(n, FALSE, FALSE)
        /\ Step("add " \o ToString(n), "add")
MDel(i) == /\ Del(i)
           /\ blk' = [j \in 1..cap |-> IF j > i /\ j < Len(a) THEN blk[j + 1] ELSE blk[j]]
           /\ UNCHANGED cap /\ Step("del " \o ToString(i), "del")
MDelU(i) == /\ DelUnordered(i)
            /\ blk' = [blk EXCEPT ![i + 1] = blk[Len(a)]]
            /\ UNCHANGED cap /\ Step("delu " \o ToString(i), "delu")
MDelLast == DelLast /\ UNCHANGED <<cap, blk>> /\ Step("dell", "dell")
MClear == Clear /\ UNCHANGED <<cap, blk>> /\ Step("clear", "clear")
\* descending insertion makes sort do something; the model sorts by reversal of classes
MSort == LET s == SortSeq(a, LAMBDA x, y : Class(x) < Class(y)) IN
         /\ Sort(s) /\ blk' = [j \in 1..cap |-> IF j <= Len(s) THEN s[j] ELSE blk[j]]
         /\ UNCHANGED cap /\ Step("sort", "sort")
MNext == MAdd \/ MDelLast \/ MClear \/ MSort \/ \E i \in 0..Len(a)-1 : MDel(i) \/ MDelU(i)
MSpec == MInit /\ [][MNext]_mvars
Refines == Len(a) <= cap /\ \A i \in 1..Len(a) : blk[i] = a[i]
Emit == PrintT("T|" \o hist')
=============================================================================
