-------------------------------- MODULE Perf --------------------------------
(* A measurement as a monitor over the system calls made for it: Step(s, e)    *)
(* is the state after event e, with ok = FALSE when e is not allowed.          *)
(* Times are in hundredths of a second.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* <<type, config>> of a counter's name (perf_event_open(2))
Software == <<"cpu-clock", "task-clock", "page-faults", "context-switches", "cpu-migrations", "page-fault-minor", "page-fault-major", "alignment-faults", "emulation-faults">>
Hardware == <<"cpu-cycles", "instructions", "cache-references", "cache-misses", "branch-instructions", "branch-misses", "bus-cycles",
              "stalled-cycles-frontend", "stalled-cycles-backend", "ref-cpu-cycles">>
Caches == <<"L1D", "L1I", "LL", "DTLB", "ITLB", "BPU", "NODE">>
CacheOps == <<"read", "write", "prefetch">>
CacheRes == <<"access", "miss">>
Codes == {<<Software[i], <<1, i - 1>>>> : i \in 1..9} \union {<<Hardware[i], <<0, i - 1>>>> : i \in 1..10} \union
         {<<Caches[c] \o "-" \o CacheOps[o] \o "-" \o CacheRes[r], <<3, (c - 1) + 256 * (o - 1) + 65536 * (r - 1)>>>> : c \in 1..7, o \in 1..3, r \in 1..2}
Idle == [ok |-> TRUE, cur |-> "none", must |-> "", c |-> << >>, open |-> FALSE, running |-> FALSE, total |-> 0, mark |-> 0, now |-> 0]
\* c: one [fd, code, on, read, closed, v, e, r] per counter
Rej(s) == [s EXCEPT !.ok = FALSE]
Find(s, fd) == {i \in DOMAIN s.c : s.c[i].fd = fd}
The(S) == CHOOSE x \in S : TRUE
AllOn(s, b) == \A i \in DOMAIN s.c : s.c[i].on = b
Unread == [v |-> 0, s |-> "", e |-> -1, r |-> -1]
\* the row of counter k shows its estimate and the share of time it was active
ShowsValue(row, k) == LET x == k.val IN
    IF x.e = x.r \/ x.r = 0 \/ x.e = 0 THEN row.t = x.s \o ".00"
    ELSE row.v * x.r <= 100 * x.v * x.e + x.r /\ row.v * x.r >= 100 * x.v * x.e - x.r
ShowsShare(row, k) == LET x == k.val IN
    IF x.e <= 0 \/ x.r <= 0 THEN row.p = 0 ELSE row.p * x.e <= 10000 * x.r + x.e /\ row.p * x.e >= 10000 * x.r - x.e
RowOf(rows, k) == {i \in DOMAIN rows : <<rows[i].n, k.code>> \in Codes}
Report(s, rows) ==
    /\ Len(rows) = Len(s.c) + 1
    /\ \E i \in DOMAIN rows : rows[i].n = "time (seconds)" /\ rows[i].v = s.total
    /\ \A i \in DOMAIN s.c : \E j \in RowOf(rows, s.c[i]) : ShowsValue(rows[j], s.c[i]) /\ ShowsShare(rows[j], s.c[i])
Ret(s, e) ==
    IF s.cur = "none" \/ s.must # "" THEN Rej(s)
    ELSE CASE s.cur = "start" ->
            IF s.c = << >> \/ ~AllOn(s, TRUE) THEN Rej(s)
            ELSE [s EXCEPT !.cur = "none", !.open = TRUE, !.running = TRUE, !.mark = IF s.running THEN s.mark ELSE s.now]
      [] s.cur = "pause" ->
            IF ~AllOn(s, FALSE) THEN Rej(s)
            ELSE [s EXCEPT !.cur = "none", !.running = FALSE, !.total = IF s.running THEN s.total + s.now - s.mark ELSE s.total]
      [] s.cur = "end" ->
            LET t == [s EXCEPT !.total = IF s.running THEN s.total + s.now - s.mark ELSE s.total] IN
            IF ~AllOn(s, FALSE) \/ (\E i \in DOMAIN s.c : ~s.c[i].read \/ ~s.c[i].closed) \/ ~Report(t, e.rows) THEN Rej(s)
            ELSE [Idle EXCEPT !.now = s.now]
Step(s, e) ==
    CASE e.op = "tick" -> IF s.cur # "none" THEN Rej(s) ELSE [s EXCEPT !.now = @ + e.d]
      [] e.op = "call" -> [s EXCEPT !.cur = e.f, !.must = IF e.f \in {"pause", "end"} /\ ~s.open THEN "say" ELSE ""]
      [] e.op = "open" ->
            IF s.cur # "start" \/ s.open THEN Rej(s)
            ELSE IF e.fd < 0 THEN [s EXCEPT !.must = "say"]
            ELSE IF e.pid # 0 \/ e.cpu # -1 \/ ~e.disabled \/ ~e.all \/ ~e.times \/ (\E i \in DOMAIN s.c : s.c[i].code = <<e.type, e.config>>) THEN Rej(s)
            ELSE [s EXCEPT !.c = Append(@, [fd |-> e.fd, code |-> <<e.type, e.config>>, on |-> FALSE, read |-> FALSE, closed |-> FALSE, val |-> Unread])]
      [] e.op = "switch" -> \* all counters, or one
            IF (e.on /\ s.cur # "start") \/ (~e.on /\ s.cur \notin {"pause", "end"}) \/ s.must # "" THEN Rej(s)
            ELSE IF e.rc # 0 THEN [s EXCEPT !.must = "say"]
            ELSE [s EXCEPT !.c = [i \in DOMAIN s.c |-> IF e.fd \in {-1, s.c[i].fd} THEN [s.c[i] EXCEPT !.on = e.on] ELSE s.c[i]]]
      [] e.op = "clock" -> [s EXCEPT !.must = IF @ = "" THEN "stop" ELSE @] \* a failing clock
      [] e.op = "read" -> LET S == Find(s, e.fd) IN
            IF S = {} \/ s.cur # "end" \/ s.must # "" THEN Rej(s)
            ELSE LET i == The(S) IN IF s.c[i].on \/ s.c[i].read \/ s.c[i].closed THEN Rej(s)
            ELSE IF e.res = "eintr" THEN [s EXCEPT !.must = ""]
            ELSE IF e.res = "fail" THEN [s EXCEPT !.must = "say"]
            ELSE [s EXCEPT !.c[i].read = TRUE, !.c[i].val = [v |-> e.v, s |-> e.s, e |-> e.e, r |-> e.r]]
      [] e.op = "close" -> LET S == Find(s, e.fd) IN
            IF S = {} \/ s.cur # "end" THEN Rej(s)
            ELSE LET i == The(S) IN IF s.c[i].closed \/ ~s.c[i].read THEN Rej(s) ELSE [s EXCEPT !.c[i].closed = TRUE]
      [] e.op = "ret" -> Ret(s, e)
      \* the process stopped: only for a reason, and with a message (an interrupted read may count as one)
      [] e.op = "died" -> IF s.cur # "none" /\ ((s.must = "say" /\ e.msg) \/ s.must = "stop" \/ (e.eintr /\ e.msg)) THEN [s EXCEPT !.cur = "dead"] ELSE Rej(s)
      [] OTHER -> Rej(s)
=============================================================================
