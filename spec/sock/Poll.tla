-------------------------------- MODULE Poll --------------------------------
(* Poll sets and descriptors.  mask: 1 read, 2 write, 4 edge; 0 = not registered.   *)
(* What is ready is given (poll(2) on the descriptor just before each wait).         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NFd, MaxEvents
VARIABLES fd, alive
pvars == <<fd, alive>>
Fds == 1..NFd
Polls == {1, 2}
Closed == [open |-> FALSE, mask |-> 0, data |-> 0, poll |-> 0, armed |-> FALSE, may |-> FALSE, starve |-> 0]
PInit == fd = [i \in Fds |-> Closed] /\ alive = {}
Bit(m, b) == (m \div b) % 2 = 1
Bits(f(_)) == (IF f(1) THEN 1 ELSE 0) + (IF f(2) THEN 2 ELSE 0) + (IF f(4) THEN 4 ELSE 0)
Or(a, b) == LET f(x) == Bit(a, x) \/ Bit(b, x) IN Bits(f)
Minus(a, b) == LET f(x) == Bit(a, x) /\ ~Bit(b, x) IN Bits(f)
\* edge alone is no interest
Norm(m) == IF m = 4 THEN 0 ELSE m
Added(m, e) == Norm(Or(m, e))
Deleted(m, e) == Norm(Minus(m, e))
Init(p, rc) == rc = 0 /\ alive' = alive \cup {p} /\ UNCHANGED fd
Term(p, rc) == rc = 0 /\ alive' = alive \ {p} /\ fd' = [i \in Fds |-> IF fd[i].poll = p THEN [fd[i] EXCEPT !.mask = 0, !.poll = 0] ELSE fd[i]]
Open(i) == UNCHANGED alive /\ fd' = [fd EXCEPT ![i] = [Closed EXCEPT !.open = TRUE]]
Close(i) == UNCHANGED alive /\ fd' = [fd EXCEPT ![i] = Closed]
\* the interest becomes m: the whole of it, or nothing if the kernel refused
Change(p, i, m, d, refused, rc) ==
    /\ UNCHANGED alive
    /\ IF m = fd[i].mask THEN rc = 0 /\ UNCHANGED fd
       ELSE IF refused THEN rc < 0 /\ UNCHANGED fd
       ELSE rc = 0 /\ fd' = [fd EXCEPT ![i] = [@ EXCEPT !.mask = m, !.data = d, !.poll = IF m = 0 THEN 0 ELSE p, !.armed = TRUE, !.may = TRUE, !.starve = 0]]
Add(p, i, e, d, refused, rc) == Change(p, i, Added(fd[i].mask, e), d, refused, rc)
Del(p, i, e, d, refused, rc) == Change(p, i, Deleted(fd[i].mask, e), d, refused, rc)
\* something happened to the other end: data arrived, it was closed, or it made room
Act(i, what) ==
    /\ UNCHANGED alive
    /\ fd' = [fd EXCEPT ![i].may = TRUE, ![i].armed = @ \/ what = "close" \/ (what = "data" /\ Bit(fd[i].mask, 1))]
Report(i, r) ==
    IF r[i].hup THEN 3
    ELSE (IF r[i].in /\ Bit(fd[i].mask, 1) THEN 1 ELSE 0) + (IF r[i].out /\ Bit(fd[i].mask, 2) THEN 2 ELSE 0)
Mine(p) == {i \in Fds : fd[i].poll = p /\ fd[i].mask # 0}
Must(p, r) == {i \in Mine(p) : Report(i, r) # 0 /\ (Bit(fd[i].mask, 4) => fd[i].armed)}
May(p, r) == {i \in Mine(p) : Report(i, r) # 0 /\ (Bit(fd[i].mask, 4) => fd[i].may)}
\* res: <<data, events>> in any order
Told(p, res) == {i \in Mine(p) : \E k \in 1..Len(res) : res[k][1] = fd[i].data}
Wait(p, r, res) ==
    LET told == Told(p, res)
        must == Must(p, r)
    IN  /\ \A k \in 1..Len(res) : \E i \in May(p, r) : res[k] = <<fd[i].data, Report(i, r)>>
        /\ \A j, k \in 1..Len(res) : j # k => res[j][1] # res[k][1]
        /\ Len(res) <= MaxEvents
        /\ (Cardinality(May(p, r)) <= MaxEvents => must \subseteq told)
        /\ (Cardinality(must) >= MaxEvents => Len(res) = MaxEvents)
        /\ UNCHANGED alive
        /\ fd' = [i \in Fds |->
             IF i \notin Mine(p) THEN fd[i]
             ELSE LET e == Bit(fd[i].mask, 4) IN
                  [fd[i] EXCEPT !.armed = @ /\ ~(e /\ (i \in told \/ Report(i, r) = 0)),
                                !.may = @ /\ ~(e /\ i \in told),
                                !.starve = IF i \in must \ told THEN @ + 1 ELSE 0]]
WaitFails(p, rc) == rc < 0 /\ UNCHANGED pvars
\* with more ready than fit into one wait, everyone gets a turn
NoStarvation == \A i \in Fds : fd[i].starve <= NFd \div MaxEvents + 1
=============================================================================
