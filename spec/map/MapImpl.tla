------------------------------ MODULE MapImpl ------------------------------
(* The table behind the map: open addressing with linear probing, a separate  *)
(* slot for the zero key, growth at the load limit and backward-shift          *)
(* deletion.  TLC shows that it refines Map (invariant Refines and the replies *)
(* asserted in each action) and prints one command sequence per transition of  *)
(* this model; those are replayed into every variant of the real map.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys,       \* non-zero keys; the hash of a key is the key itself
          LoadFactor, \* per cent
          MaxCap,     \* bound on growth
          UseZero     \* whether the zero key is exercised
VARIABLES cap, tab, zero, size, \* implementation state; tab: slot -> <<key, val>>, key 0 = free
          m,                    \* abstract map
          n, hist               \* step number and command text (hidden by VIEW)

vars == <<cap, tab, zero, size, m, n, hist>>
V == <<cap, [i \in 0..cap-1 |-> tab[i][1]], zero[1], size>>

Free == <<0, 0>>
Remap(c) == (c * LoadFactor) \div 100
Home(k, c) == k % c

Init == /\ cap = 8
        /\ tab = [i \in 0..7 |-> Free]
        /\ zero = <<FALSE, 0>>
        /\ size = 0
        /\ m = << >>
        /\ n = 1
        /\ hist = ""

RECURSIVE Probe(_, _, _, _)
\* first slot from pos that is free or holds k
Probe(t, c, pos, k) == IF t[pos][1] = 0 \/ t[pos][1] = k THEN pos ELSE Probe(t, c, (pos + 1) % c, k)

RECURSIVE Rehash(_, _, _, _, _)
Rehash(old, oc, i, new, nc) ==
    IF i = oc THEN new
    ELSE IF old[i][1] = 0 THEN Rehash(old, oc, i + 1, new, nc)
    ELSE LET p == Probe(new, nc, Home(old[i][1], nc), old[i][1])
         IN Rehash(old, oc, i + 1, [new EXCEPT ![p] = old[i]], nc)

Grow == IF size < Remap(cap) THEN <<cap, tab>>
        ELSE <<2 * cap, Rehash(tab, cap, 0, [i \in 0..2*cap-1 |-> Free], 2 * cap)>>

RECURSIVE Shift(_, _, _, _)
\* backward shift after freeing slot prev
Shift(t, c, prev, it0) ==
    LET it == (it0 + 1) % c IN
    IF t[it][1] = 0 THEN t
    ELSE LET p == Home(t[it][1], c) IN
         IF (p > it /\ (p <= prev \/ it >= prev)) \/ (p <= prev /\ it >= prev)
         THEN Shift([t EXCEPT ![prev] = t[it], ![it] = Free], c, it, it)
         ELSE Shift(t, c, prev, it)

Val == n
Step(txt) == n' = n + 1 /\ hist' = hist \o txt \o ";"

Put(k) ==
    LET g == Grow  c == g[1]  t == g[2]  p == Probe(t, c, Home(k, c), k) IN
    /\ c <= MaxCap
    /\ Assert((t[p][1] = k) = (k \in DOMAIN m), "put: found")
    /\ Assert(t[p][1] = k => t[p][2] = m[k], "put: previous value")
    /\ cap' = c
    /\ tab' = [t EXCEPT ![p] = <<k, Val>>]
    /\ size' = IF t[p][1] = 0 THEN size + 1 ELSE size
    /\ m' = (k :> Val) @@ m
    /\ UNCHANGED zero
    /\ Step("put " \o ToString(k) \o " " \o ToString(Val))

PutZero ==
    /\ UseZero
    /\ LET g == Grow IN
       /\ g[1] <= MaxCap
       /\ cap' = g[1] /\ tab' = g[2]
    /\ Assert(zero[1] = (0 \in DOMAIN m), "put zero: found")
    /\ size' = IF zero[1] THEN size ELSE size + 1
    /\ zero' = <<TRUE, Val>>
    /\ m' = (0 :> Val) @@ m
    /\ Step("put 0 " \o ToString(Val))

Del(k) ==
    LET p == Probe(tab, cap, Home(k, cap), k) IN
    /\ Assert((tab[p][1] = k) = (k \in DOMAIN m), "del: found")
    /\ IF tab[p][1] = k
       THEN /\ Assert(tab[p][2] = m[k], "del: value")
            /\ tab' = Shift([tab EXCEPT ![p] = Free], cap, p, p)
            /\ size' = size - 1
            /\ m' = [x \in DOMAIN m \ {k} |-> m[x]]
       ELSE UNCHANGED <<tab, size, m>>
    /\ UNCHANGED <<cap, zero>>
    /\ Step("del " \o ToString(k))

DelZero ==
    /\ UseZero
    /\ Assert(zero[1] = (0 \in DOMAIN m), "del zero: found")
    /\ zero' = <<FALSE, 0>>
    /\ size' = IF zero[1] THEN size - 1 ELSE size
    /\ m' = [x \in DOMAIN m \ {0} |-> m[x]]
    /\ UNCHANGED <<cap, tab>>
    /\ Step("del 0")

Clear ==
    /\ tab' = [i \in 0..cap-1 |-> Free]
    /\ zero' = <<FALSE, 0>>
    /\ size' = 0
    /\ m' = << >>
    /\ UNCHANGED cap
    /\ Step("clear")

Next == PutZero \/ DelZero \/ Clear \/ \E k \in Keys : Put(k) \/ Del(k)
Spec == Init /\ [][Next]_vars

\* the table denotes exactly the abstract map
Refines ==
    /\ {tab[i][1] : i \in 0..cap-1} \ {0} = DOMAIN m \ {0}
    /\ \A i \in 0..cap-1 : tab[i][1] # 0 => tab[i][2] = m[tab[i][1]]
    /\ zero[1] = (0 \in DOMAIN m)
    /\ zero[1] => zero[2] = m[0]
    /\ size = Cardinality(DOMAIN m)
    /\ \E i \in 0..cap-1 : tab[i][1] = 0
\* every stored key is reachable by probing from its home
Reachable == \A k \in DOMAIN m \ {0} : LET p == Probe(tab, cap, Home(k, cap), k) IN tab[p][1] = k
Emit == PrintT("T|" \o hist')
=============================================================================
