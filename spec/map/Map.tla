-------------------------------- MODULE Map --------------------------------
(* A hash map as the finite function its history defines.  Keys and values    *)
(* are the identifiers the driver gives them; key 0 is the zero/NULL key and  *)
(* value 0 is the zero/NULL value that a call returns when there is none.     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
VARIABLES m,      \* [present keys -> values]
          live    \* the map is initialised

vars == <<m, live>>

Empty == << >>
Lookup(k) == IF k \in DOMAIN m THEN m[k] ELSE 0
Without(k) == [x \in DOMAIN m \ {k} |-> m[x]]

Init == m = Empty /\ live = FALSE

(* load factor: documented >25 and <95, 0 for the default; 25 and 95          *)
(* themselves are left open (document and code differ)                        *)
LfMust(lf) == lf = 0 \/ (lf > 25 /\ lf < 95)
LfMay(lf)  == LfMust(lf) \/ lf \in {25, 95}

\* ok: reply;  failed: an allocation request was refused during the call
DoInit(lf, big, ok, failed) ==
    /\ ~live
    /\ ok => LfMay(lf)
    /\ ~ok => (failed \/ big \/ ~LfMust(lf)) \* big: capacity near the 32-bit limit
    /\ live' = ok
    /\ m' = Empty

Put(k, v, ret, found, oom, failed) ==
    /\ live
    /\ live' = live
    /\ IF oom
       THEN failed /\ ret = 0 /\ ~found /\ m' = m
       ELSE /\ found = (k \in DOMAIN m)
            /\ ret = Lookup(k)
            /\ m' = (k :> v) @@ m

Get(k, ret, found) ==
    /\ live
    /\ found = (k \in DOMAIN m)
    /\ ret = Lookup(k)
    /\ UNCHANGED vars

Del(k, ret, found) ==
    /\ live
    /\ found = (k \in DOMAIN m)
    /\ ret = Lookup(k)
    /\ m' = Without(k)
    /\ live' = live

Clear == live /\ m' = Empty /\ live' = live

Size(n) == live /\ n = Cardinality(DOMAIN m) /\ UNCHANGED vars

\* iteration: every present pair exactly once, in some order
SeqRange(s) == {s[i] : i \in 1..Len(s)}
Each(items) ==
    /\ live
    /\ Len(items) = Cardinality(DOMAIN m)
    /\ SeqRange(items) = {<<k, m[k]>> : k \in DOMAIN m}
    /\ UNCHANGED vars
EachKey(ks) ==
    /\ live
    /\ Len(ks) = Cardinality(DOMAIN m)
    /\ SeqRange(ks) = DOMAIN m
    /\ UNCHANGED vars
\* multiset of values
EachValue(vs) ==
    /\ live
    /\ Len(vs) = Cardinality(DOMAIN m)
    /\ \A v \in SeqRange(vs) \cup {m[k] : k \in DOMAIN m} :
          Cardinality({i \in 1..Len(vs) : vs[i] = v}) = Cardinality({k \in DOMAIN m : m[k] = v})
    /\ UNCHANGED vars

\* iterations that skip odd ids and stop after lim items: part of the map, nothing twice
AtMost(lim, n) == IF n < lim THEN n ELSE lim
Scan(lim, items, inner, ks, vs) ==
    LET evv == {k \in DOMAIN m : m[k] % 2 = 0}
        evk == {k \in DOMAIN m : k % 2 = 0}
    IN /\ live
       /\ Len(items) = AtMost(lim, Cardinality(evv)) /\ Cardinality(SeqRange(items)) = Len(items)
       /\ \A it \in SeqRange(items) : it[1] \in evv /\ it[2] = m[it[1]]
       /\ inner = (IF evv = {} THEN 0 ELSE AtMost(3, Cardinality(DOMAIN m)))
       /\ Len(ks) = AtMost(lim, Cardinality(evk)) /\ Cardinality(SeqRange(ks)) = Len(ks) /\ SeqRange(ks) \subseteq evk
       /\ Len(vs) = AtMost(lim, Cardinality(evv))
       /\ \A v \in SeqRange(vs) : Cardinality({i \in 1..Len(vs) : vs[i] = v}) <= Cardinality({k \in evv : m[k] = v})
       /\ UNCHANGED vars
\* a second map behaves as a map of its own
Other(bad) == live /\ bad = 0 /\ UNCHANGED vars

Term == live /\ live' = FALSE /\ m' = Empty

TypeOK == live \in BOOLEAN /\ (~live => m = Empty)
=============================================================================
