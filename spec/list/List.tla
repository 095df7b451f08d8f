-------------------------------- MODULE List --------------------------------
(* Several intrusive lists over shared entries: each list is a sequence, each  *)
(* entry is in at most one of them.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE L       \* L[i]: sequence of entries of list i
vars == <<L>>
Range(s) == {s[i] : i \in 1..Len(s)}
Drop(s, e) == SelectSeq(s, LAMBDA x : x # e)
Without(e) == [i \in DOMAIN L |-> Drop(L[i], e)]
Where(e) == {i \in DOMAIN L : e \in Range(L[i])}
Pos(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

AddHead(i, e) == L' = [Without(e) EXCEPT ![i] = <<e>> \o @]
AddTail(i, e) == L' = [Without(e) EXCEPT ![i] = Append(@, e)]
\* the entries a..b, none of them linked, one after the other at the tail
Fill(i, a, b) ==
    /\ \A k \in DOMAIN L : \A j \in 1..Len(L[k]) : L[k][j] \notin a..b
    /\ L' = [L EXCEPT ![i] = @ \o [j \in 1..(b - a + 1) |-> a + j - 1]]
\* p is the reference entry, linked in list i, and not e itself
AddAfter(i, p, e) ==
    /\ p # e /\ p \in Range(L[i])
    /\ LET W == Without(e)  k == Pos(W[i], p) IN
       L' = [W EXCEPT ![i] = SubSeq(@, 1, k) \o <<e>> \o SubSeq(@, k + 1, Len(@))]
AddBefore(i, p, e) ==
    /\ p # e /\ p \in Range(L[i])
    /\ LET W == Without(e)  k == Pos(W[i], p) IN
       L' = [W EXCEPT ![i] = SubSeq(@, 1, k - 1) \o <<e>> \o SubSeq(@, k, Len(@))]
Del(e) == L' = Without(e)
PopHead(i, r) == IF L[i] = << >> THEN r = 0 /\ L' = L ELSE r = Head(L[i]) /\ L' = [L EXCEPT ![i] = Tail(@)]
PopTail(i, r) == IF L[i] = << >> THEN r = 0 /\ L' = L
                 ELSE r = L[i][Len(L[i])] /\ L' = [L EXCEPT ![i] = SubSeq(@, 1, Len(@) - 1)]
Clear(i) == L' = [L EXCEPT ![i] = << >>]
\* safe iteration removing the visited entries of D, or moving them to the tail of list j
Keep(s, D) == SelectSeq(s, LAMBDA x : x \notin D)
Only(s, D) == SelectSeq(s, LAMBDA x : x \in D)
IterDel(i, D, rev, visited) ==
    /\ visited = (IF rev THEN Rev(L[i]) ELSE L[i])
    /\ L' = [L EXCEPT ![i] = Keep(@, D)]
IterMove(i, j, D, rev, visited) ==
    /\ i # j
    /\ visited = (IF rev THEN Rev(L[i]) ELSE L[i])
    /\ L' = [L EXCEPT ![i] = Keep(@, D), ![j] = @ \o Only(visited, D)]
Dump(i, fwd, bwd, head, tail, count, empty) ==
    /\ fwd = L[i] /\ bwd = Rev(L[i]) /\ count = Len(L[i]) /\ empty = (L[i] = << >>)
    /\ head = (IF L[i] = << >> THEN 0 ELSE Head(L[i]))
    /\ tail = (IF L[i] = << >> THEN 0 ELSE L[i][Len(L[i])])
    /\ L' = L
\* an entry is in at most one list, once
OnlyOnce == /\ \A i \in DOMAIN L : Cardinality(Range(L[i])) = Len(L[i])
            /\ \A i, j \in DOMAIN L : i # j => Range(L[i]) \cap Range(L[j]) = {}
=============================================================================
