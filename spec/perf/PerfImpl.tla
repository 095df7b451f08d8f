------------------------------ MODULE PerfImpl ------------------------------
(* The life cycle as the code runs it, call by call, over N counters, with at   *)
(* most one failing system call; each behaviour is a test.                      *)
EXTENDS Perf
CONSTANTS N, MaxOps
VARIABLES s, pc, k, init, running, total, start, ops, fault
vars == <<s, pc, k, init, running, total, start, ops, fault>>
Fd(i) == 50 + i
Do(e) == s' = Step(s, e)
Init == s = Idle /\ pc = "user" /\ k = 1 /\ init = FALSE /\ running = FALSE /\ total = 0 /\ start = 0 /\ ops = << >> /\ fault = 0
Keep == UNCHANGED <<init, running, total, start>>
\* the n-th call of this operation fails (fault counts down)
Fails == fault = 1
Less == fault' = IF fault > 0 THEN fault - 1 ELSE 0
User == /\ pc = "user" /\ Len(ops) < MaxOps /\ k' = 1 /\ Keep
        /\ \/ \E d \in {1, 5} : Do([op |-> "tick", d |-> d]) /\ ops' = Append(ops, "tick " \o ToString(d)) /\ pc' = "user" /\ UNCHANGED fault
           \/ \E f \in {"start", "pause", "end"}, x \in 0..(2 * N + 3) : Do([op |-> "call", f |-> f]) /\ pc' = f /\ fault' = x
                 /\ ops' = Append(ops, f \o " " \o ToString(x))
Die == pc' = "dead" /\ Keep /\ UNCHANGED <<k, ops, fault>>
Dead == pc = "die" /\ Do([op |-> "died", msg |-> TRUE, eintr |-> FALSE]) /\ Die
DeadQ == pc = "dieq" /\ Do([op |-> "died", msg |-> FALSE, eintr |-> FALSE]) /\ Die
Go(p) == pc' = p /\ UNCHANGED <<ops>>
StartOpen == /\ pc = "start" /\ ~init /\ Keep /\ Less
             /\ Do([op |-> "open", type |-> 0, config |-> k - 1, pid |-> 0, cpu |-> -1, disabled |-> TRUE, all |-> TRUE, times |-> TRUE, fd |-> IF Fails THEN -1 ELSE Fd(k)])
             /\ (IF Fails THEN Go("die") /\ k' = k ELSE IF k = N THEN Go("opened") /\ k' = 1 ELSE Go("start") /\ k' = k + 1)
Opened == pc = "opened" /\ init' = TRUE /\ pc' = "enable" /\ UNCHANGED <<s, k, running, total, start, ops, fault>>
Again == pc = "start" /\ init /\ (IF running THEN Go("ret") ELSE Go("enable")) /\ Keep /\ UNCHANGED <<s, k, fault>>
Enable == /\ pc = "enable" /\ Do([op |-> "switch", on |-> TRUE, fd |-> -1, rc |-> IF Fails THEN -1 ELSE 0]) /\ Less
          /\ (IF Fails THEN Go("die") ELSE Go("clock1")) /\ Keep /\ UNCHANGED k
Clock1 == pc = "clock1" /\ Less /\ UNCHANGED <<k, init, total, ops>>
          /\ IF Fails THEN Do([op |-> "clock"]) /\ pc' = "dieq" /\ UNCHANGED <<running, start>>
             ELSE UNCHANGED s /\ start' = s.now /\ running' = TRUE /\ pc' = "ret"
Pause == /\ pc \in {"pause", "end"} /\ Keep /\ UNCHANGED <<k>>
         /\ IF ~init THEN Go("die") /\ UNCHANGED <<s, fault>>
            ELSE IF ~running THEN Go(IF pc = "pause" THEN "ret" ELSE "reading") /\ UNCHANGED <<s, fault>>
            ELSE /\ Do([op |-> "switch", on |-> FALSE, fd |-> -1, rc |-> IF Fails THEN -1 ELSE 0]) /\ Less
                 /\ Go(IF Fails THEN "die" ELSE IF pc = "pause" THEN "clock2" ELSE "clock3")
Clock2 == pc \in {"clock2", "clock3"} /\ Less /\ UNCHANGED <<k, init, start, ops>>
          /\ IF Fails THEN Do([op |-> "clock"]) /\ pc' = "dieq" /\ UNCHANGED <<running, total>>
             ELSE UNCHANGED s /\ total' = total + s.now - start /\ running' = FALSE /\ pc' = (IF pc = "clock2" THEN "ret" ELSE "reading")
Reading == /\ pc = "reading" /\ Keep /\ Less
           /\ Do([op |-> "read", fd |-> Fd(k), res |-> IF Fails THEN "fail" ELSE "ok", v |-> 7, s |-> "7", e |-> 3, r |-> 3])
           /\ (IF Fails THEN Go("die") /\ k' = k ELSE IF k = N THEN Go("closing") /\ k' = 1 ELSE Go("reading") /\ k' = k + 1)
Closing == /\ pc = "closing" /\ Keep /\ UNCHANGED fault /\ Do([op |-> "close", fd |-> Fd(k)])
           /\ (IF k = N THEN Go("report") /\ k' = 1 ELSE Go("closing") /\ k' = k + 1)
Rows == << [n |-> "time (seconds)", v |-> total, t |-> "", p |-> 10000] >> \o [i \in 1..N |-> [n |-> Hardware[i], v |-> 700, t |-> "7.00", p |-> 10000]]
RetOf == /\ pc = "ret" /\ Do([op |-> "ret", rows |-> << >>]) /\ pc' = "user" /\ Keep /\ k' = 1 /\ fault' = 0 /\ UNCHANGED ops
Printed == /\ pc = "report" /\ Do([op |-> "ret", rows |-> Rows]) /\ pc' = "user" /\ init' = FALSE /\ running' = FALSE /\ total' = 0 /\ start' = 0
           /\ k' = 1 /\ fault' = 0 /\ UNCHANGED ops
RECURSIVE Join(_)
Join(q) == IF q = << >> THEN "" ELSE Head(q) \o ";" \o Join(Tail(q))
Say == /\ (pc = "dead" \/ (pc = "user" /\ Len(ops) = MaxOps)) /\ PrintT("T|" \o Join(ops)) /\ pc' = "said" /\ UNCHANGED <<s, k, init, running, total, start, ops, fault>>
Next == User \/ Dead \/ DeadQ \/ StartOpen \/ Opened \/ Again \/ Enable \/ Clock1 \/ Pause \/ Clock2 \/ Reading \/ Closing \/ RetOf \/ Printed \/ Say
Spec == Init /\ [][Next]_vars
Allowed == s.ok
\* the code's own bookkeeping agrees with the monitor's between operations
Same == pc = "user" => init = s.open /\ running = s.running /\ total = s.total /\ (running => start = s.mark)
NothingOpen == pc = "user" /\ ~init => s.c = << >>
=============================================================================
