------------------------------ MODULE HeapImpl ------------------------------
(* The binary heap in an array (position 1 is the root).                       *)
EXTENDS Heap
CONSTANTS Keys, MaxLen
VARIABLES arr, n, hist
mvars == <<h, live, arr, n, hist>>
V == [i \in 1..Len(arr) |-> arr[i][1]]
MInit == h = {} /\ live = TRUE /\ arr = << >> /\ n = 1 /\ hist = ""
Step(txt) == n' = n + 1 /\ hist' = hist \o txt \o ";"

RECURSIVE Up(_, _, _)
Up(s, i, e) == IF i = 1 \/ s[i \div 2][1] <= e[1] THEN [s EXCEPT ![i] = e]
               ELSE Up([s EXCEPT ![i] = s[i \div 2]], i \div 2, e)
RECURSIVE Down(_, _, _)
Down(s, i, e) ==
    LET c0 == 2 * i
        c == IF c0 < Len(s) /\ s[c0][1] > s[c0 + 1][1] THEN c0 + 1 ELSE c0
    IN IF c0 > Len(s) \/ e[1] <= s[c][1] THEN [s EXCEPT ![i] = e]
       ELSE Down([s EXCEPT ![i] = s[c]], c, e)
IAdd(k) == /\ Len(arr) < MaxLen
           /\ arr' = Up(Append(arr, <<0, 0>>), Len(arr) + 1, <<k, n>>)
           /\ Add(k, n, TRUE, FALSE)
           /\ Step("add " \o ToString(k) \o " " \o ToString(n))
IPop == IF arr = << >> THEN Pop(NoEntry) /\ arr' = arr /\ Step("pop")
        ELSE /\ Pop(arr[1])
             /\ LET t == SubSeq(arr, 1, Len(arr) - 1)
                IN arr' = IF t = << >> THEN t ELSE Down(t, 1, arr[Len(arr)])
             /\ Step("pop")
IClear == Clear /\ arr' = << >> /\ Step("clear")
MNext == IPop \/ IClear \/ \E k \in Keys : IAdd(k)
MSpec == MInit /\ [][MNext]_mvars
Refines == {arr[i] : i \in 1..Len(arr)} = h /\ Len(arr) = Cardinality(h)
HeapOrder == \A i \in 2..Len(arr) : arr[i \div 2][1] <= arr[i][1]
PopEnabled == ENABLED IPop
Emit == PrintT("T|" \o hist')
=============================================================================
