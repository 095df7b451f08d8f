------------------------------ MODULE TimerImpl ------------------------------
(* The hashed timing wheel: slot of a timer chosen from its distance to the    *)
(* start of the current tick, polls advance the head by whole ticks and scan   *)
(* the slots they leave behind.  TLC checks that every expiry it makes is one  *)
(* that Timer allows and that nothing is left overdue.                         *)
EXTENDS Timer
CONSTANTS Slots, Timeouts, Steps, MaxTimers, MaxN
VARIABLES base, head, wheel,   \* wheel: slot -> sequence of <<serial, due>>, <<0, 0>> = hole
          n, hist
mvars == <<now, pend, polling, must, base, head, wheel, n, hist>>
\* relative view: absolute time does not matter
V == <<n, now - base, {<<p.due - base, p.n>> : p \in pend}, [i \in 0..Slots-1 |-> wheel[(head + i) % Slots]]>>
IPlus(a, b) == a + b
IPlusTick(a) == a + Tick
ILeq(a, b) == a <= b
IPhase(a) == a % Tick
Hole == <<0, 0>>
MInit == /\ now = 0 /\ pend = {} /\ polling = FALSE /\ must = {}
         /\ base = 0 /\ head = 0 /\ wheel = [i \in 0..Slots-1 |-> << >>] /\ n = 1 /\ hist = ""
Txt(t) == n' = n + 1 /\ hist' = hist \o t \o ";"
Place(s, x) == IF \E i \in 1..Len(s) : s[i] = Hole
               THEN LET k == CHOOSE i \in 1..Len(s) : s[i] = Hole /\ \A j \in 1..i-1 : s[j] # Hole
                    IN [s EXCEPT ![k] = x]
               ELSE Append(s, x)
IAdd(T) == LET slot == ((T + now - base) \div Tick + head) % Slots IN
    /\ n <= MaxN /\ Cardinality(pend) < MaxTimers
    /\ wheel' = [wheel EXCEPT ![slot] = Place(@, <<n, now + T>>)]
    /\ Add(n, Due(T), n, TRUE, FALSE)
    /\ UNCHANGED <<base, head>> /\ Txt("add " \o ToString(n) \o " " \o ToString(T))
ICancel(p) ==
    /\ n <= MaxN
    /\ wheel' = [i \in 0..Slots-1 |-> [k \in 1..Len(wheel[i]) |-> IF wheel[i][k][1] = p.n THEN Hole ELSE wheel[i][k]]]
    /\ Cancel(p.n) /\ UNCHANGED <<base, head>> /\ Txt("cancel " \o ToString(p.n))
IPoll(d) ==
    LET ts == now + d
        ticks == (ts - base) \div Tick
        scan == {(head + i) % Slots : i \in 0..((IF ticks < Slots THEN ticks ELSE Slots) - 1)}
        fired == {wheel[i][k][1] : <<i, k>> \in {<<i, k>> \in scan \X (1..MaxTimers) : k <= Len(wheel[i]) /\ wheel[i][k] # Hole /\ wheel[i][k][2] <= ts}}
    IN /\ n <= MaxN
       /\ Assert(\A p \in pend : p.n \in fired => p.due <= ts, "early")
       /\ Assert(\A p \in pend : p.due + Tick <= ts => p.n \in fired, "late")
       /\ Assert(fired \subseteq {p.n : p \in pend}, "not pending")
       /\ now' = ts /\ base' = base + ticks * Tick /\ head' = (head + ticks) % Slots
       /\ pend' = {p \in pend : p.n \notin fired}
       /\ wheel' = [i \in 0..Slots-1 |-> [k \in 1..Len(wheel[i]) |-> IF wheel[i][k][1] \in fired THEN Hole ELSE wheel[i][k]]]
       /\ UNCHANGED <<polling, must>>
       /\ Txt("poll " \o ToString(ts))
MNext == (\E T \in Timeouts : IAdd(T)) \/ (\E p \in pend : ICancel(p)) \/ (\E d \in Steps : IPoll(d))
MSpec == MInit /\ [][MNext]_mvars
Aligned == base % Tick = 0 /\ now - base \in 0..Tick-1
Emit == PrintT("T|" \o hist')
=============================================================================
