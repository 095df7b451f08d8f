------------------------------ MODULE SockImpl ------------------------------
(* sc_sock.c as it works: every operation is a run of system calls, any of which    *)
(* may fail; what was acquired so far is then given back by the error path.  Each    *)
(* run has to be a step of Sock that holds what Sock says.  hist is the operations.  *)
EXTENDS Sock, TLC
CONSTANTS MaxOps, Fams, Kinds, Xfers
VARIABLES fam, has, hist, m
\* has[x]: what the process holds: descriptors, address lists, memory
ivars == <<svars, fam, has, m>>
vars == <<ivars, hist>>
Fst(s) == CHOOSE x \in Slots : \A y \in Slots : x <= y
\* all sockets are initialised, blocking or not
Init0 == /\ fam \in Fams /\ has = [fd |-> 0, gai |-> 0, mem |-> 0] /\ hist = "" /\ m = 0
         /\ \E b \in [Slots -> BOOLEAN] : sk = [s \in Slots |-> [Blank EXCEPT !.st = "idle", !.u = (fam = "u"), !.blk = b[s]]]
         /\ pp = [p \in Pipes |-> FALSE] /\ po = [p \in Pipes |-> FALSE]
Say(t) == m < MaxOps /\ m' = m + 1 /\ hist' = hist \o t \o ";" /\ UNCHANGED fam
N(x) == ToString(x)
F(k) == IF k = 0 THEN "" ELSE ",!" \o N(k)
Setup == (IF fam = "6" THEN <<"setsockopt">> ELSE <<>>) \o <<"fcntl", "fcntl">>
ListenCalls == IF fam = "u" THEN <<"socket", "fcntl", "fcntl", "bind", "listen">>
               ELSE <<"getaddrinfo", "socket">> \o Setup \o <<"setsockopt", "setsockopt", "bind", "freeaddrinfo", "listen">>
ConnectCalls(src) == IF fam = "u" THEN <<"socket", "fcntl", "fcntl", "connect">>
                     ELSE <<"getaddrinfo", "socket", "fcntl", "fcntl", "setsockopt", "setsockopt">>
                       \o (IF src = "-" THEN <<>> ELSE <<"getaddrinfo", "bind", "freeaddrinfo">>) \o <<"connect", "freeaddrinfo">>
AcceptCalls == (IF fam = "u" THEN <<"accept">> ELSE <<"accept", "setsockopt">>) \o <<"fcntl", "fcntl">>
Opens(c) == IF c \in {"socket", "accept"} THEN 1 ELSE IF c = "pipe" THEN 2 ELSE IF c = "epoll_create" THEN 1 ELSE 0
\* the calls up to the failing one (all of them if k = 0), then the error path: everything acquired is released
Takes(c, w) == IF w = "fd" THEN Opens(c) ELSE IF w = "gai" THEN (IF c = "getaddrinfo" THEN 1 ELSE IF c = "freeaddrinfo" THEN -1 ELSE 0) ELSE 0
RECURSIVE Got(_, _)
Got(calls, w) == IF calls = <<>> THEN 0 ELSE Takes(Head(calls), w) + Got(Tail(calls), w)
Faultable(c) == c \notin {"freeaddrinfo", "free", "malloc"}
\* fault k of calls: which call it is, "" if none
Which(calls, k) == IF k = 0 \/ k > Len(calls) THEN "" ELSE calls[k]
CanFail(calls, k) == IF k = 0 THEN TRUE ELSE IF k > Len(calls) THEN FALSE ELSE Faultable(calls[k])
\* number of the fault as the driver counts it: only calls that can fail
Nth(calls, k) == IF k = 0 THEN 0 ELSE Cardinality({j \in 1..k : Faultable(calls[j])})
Reply(rc, err, fault, h) == [rc |-> rc, err |-> err, text |-> rc < 0, fault |-> fault, fds |-> h.fd, bad |-> 0, gai |-> h.gai, live |-> h.mem]
\* fail: index of the failing call, injected or not; keep: what stays although it failed (an asynchronous connect)
After(calls, fail, keep) ==
    IF fail # 0 /\ ~keep THEN has
    ELSE [fd |-> has.fd + Got(calls, "fd"), gai |-> has.gai + Got(calls, "gai"), mem |-> has.mem]
Do(step, text) == /\ Assert(ENABLED step, <<"not a step of Sock", hist, text>>) /\ step /\ Say(text)
DoListen(s, kind, k) ==
    LET good == kind = "g"
        fail == IF k # 0 THEN k ELSE IF good THEN 0 ELSE 1
        h == After(ListenCalls, fail, FALSE)
        r == Reply(IF fail = 0 THEN 0 ELSE -1, IF fail = 0 THEN "" ELSE "other", Which(ListenCalls, k), h)
        st == Listen(s, good, FALSE, fail = 0 /\ ~sk[s].blk, TRUE, r) /\ has' = h /\ Tidy(r)
    IN  /\ sk[s].st = "idle" /\ CanFail(ListenCalls, k) /\ (k # 0 => good)
        /\ Do(st, "listen," \o N(s) \o "," \o kind \o F(Nth(ListenCalls, k)))
DoConnect(s, l, src, k, again) ==
    LET calls == ConnectCalls(src)
        live == IF l # 0 /\ sk[l].st = "listen" THEN l ELSE 0
        inj == Which(calls, k)
        async == inj = "connect" /\ again /\ fam # "u"
        fail == IF k # 0 THEN k ELSE IF src \in {"n"} THEN 8 ELSE IF live = 0 THEN 9 ELSE 0
        late == ~sk[s].blk /\ fam # "u" /\ (async \/ (k = 0 /\ fail \in {0, 9}))
        h == After(calls, fail, late)
        r == Reply(IF fail = 0 /\ ~late THEN 0 ELSE -1, IF late THEN "EAGAIN" ELSE IF fail = 0 THEN "" ELSE "other", inj, h)
        st == Connect(s, live, src # "n", FALSE, async, (fail = 0 \/ late) /\ ~sk[s].blk, TRUE, r) /\ has' = h /\ Tidy(r)
    IN  /\ sk[s].st = "idle" /\ CanFail(calls, k) /\ (again => inj = "connect") /\ (fam = "u" => src = "-") /\ (k # 0 => src # "n")
        /\ s # l
        /\ Do(st, "connect," \o N(s) \o "," \o N(l) \o "," \o src \o F(Nth(calls, k)) \o (IF again THEN "a" ELSE ""))
DoAccept(l, s, k, again) ==
    LET some == sk[l].q # <<>>
        inj == Which(AcceptCalls, k)
        fail == IF k # 0 THEN k ELSE IF some THEN 0 ELSE 1
        h == After(AcceptCalls, fail, FALSE)
        taken == some /\ k # 1
        r == Reply(IF fail = 0 THEN 0 ELSE -1, IF (~some /\ k = 0) \/ (again /\ k = 1) THEN "EAGAIN" ELSE IF fail = 0 THEN "" ELSE "other", inj, h)
        st == Accept(l, s, taken, inj = "accept" /\ again, fail = 0 /\ ~sk[l].blk, r) /\ has' = h /\ Tidy(r)
    IN  /\ sk[l].st = "listen" /\ sk[s].st = "idle" /\ s # l /\ CanFail(AcceptCalls, k) /\ (again => k = 1)
        /\ (~some => ~sk[l].blk /\ k <= 1)
        /\ Do(st, "accept," \o N(l) \o "," \o N(s) \o F(k) \o (IF again THEN "a" ELSE ""))
DoFinish(s, k) ==
    LET rc == IF k # 0 \/ sk[s].refused THEN -1 ELSE 0
        r == Reply(rc, IF rc = 0 THEN "" ELSE "other", IF k # 0 THEN "getsockopt" ELSE "", has)
        st == Finish(s, r) /\ UNCHANGED has /\ Tidy(r)
    IN  sk[s].st = "conn" /\ Do(st, "finish," \o N(s) \o F(k))
\* one byte stands for an amount; the kernel moves what there is room for, interrupted before or not
Peer(s) == sk[s].peer
DoSend(s, n, x) ==
    LET bad == sk[s].loose \/ sk[s].refused \/ x = "err"
        rc == IF n <= 0 THEN n ELSE IF bad THEN -1 ELSE IF x = "short" THEN 1 ELSE n
        kern == IF n <= 0 THEN "none" ELSE IF rc < 0 THEN "other" ELSE "data"
        r == Reply(rc, IF rc < 0 THEN "other" ELSE "", "", has)
        st == Send(s, n, IF rc > 0 THEN rc ELSE 0, IF n <= 0 THEN 0 ELSE IF x = "eintr" THEN 3 ELSE 1, kern, r) /\ UNCHANGED has /\ Tidy(r)
    IN  sk[s].st = "conn" /\ (n <= 0 => x = "") /\ Do(st, "send," \o N(s) \o "," \o N(n) \o "," \o x)
DoRecv(s, n, x) ==
    LET there == sk[s].lim - sk[s].in
        none == there = 0 \/ x = "err"
        kern == IF n <= 0 THEN "none" ELSE IF x = "err" THEN "other" ELSE IF there > 0 THEN "data" ELSE IF sk[s].loose \/ sk[s].refused THEN "eof" ELSE "EAGAIN"
        want == IF x = "short" THEN 1 ELSE n
        rc == IF n <= 0 THEN n ELSE IF none THEN -1 ELSE IF want < there THEN want ELSE there
        r == Reply(rc, IF kern = "eof" THEN "EOF" ELSE IF kern = "EAGAIN" THEN "EAGAIN" ELSE IF rc < 0 THEN "other" ELSE "", "", has)
        st == Recv(s, n, IF rc > 0 THEN rc ELSE 0, IF n <= 0 THEN 0 ELSE 1, kern, {sk[s].src}, TRUE, r) /\ UNCHANGED has /\ Tidy(r)
    IN  sk[s].st = "conn" /\ (n <= 0 => x = "") /\ Do(st, "recv," \o N(s) \o "," \o N(n) \o "," \o x)
DoTerm(s, k) ==
    LET h == IF Held(sk[s]) THEN [has EXCEPT !.fd = @ - 1] ELSE has
        r == Reply(IF k # 0 THEN -1 ELSE 0, IF k # 0 THEN "other" ELSE "", IF k # 0 THEN "close" ELSE "", h)
        st == Term(s, r) /\ has' = h /\ Tidy(r)
    IN  sk[s].st # "none" /\ (k # 0 => Held(sk[s])) /\ Do(st, "term," \o N(s) \o F(k))
DoSet(s, v, k) ==
    LET r == Reply(IF k # 0 THEN -1 ELSE 0, IF k # 0 THEN "other" ELSE "", IF k # 0 THEN "fcntl" ELSE "", has)
        st == SetBlocking(s, v, IF k # 0 THEN sk[s].nb ELSE ~v, r) /\ UNCHANGED has /\ Tidy(r)
    IN  Held(sk[s]) /\ Do(st, "setblk," \o N(s) \o "," \o (IF v THEN "1" ELSE "0") \o F(k))
SockNext == \E s \in Slots, k \in 0..11 :
    \/ \E g \in {"g", "b"} : s = 1 /\ DoListen(s, g, k)
    \/ s # 1 /\ \E l \in {0, 1}, src \in {"-", "2", "n"}, a \in BOOLEAN : DoConnect(s, l, src, k, a)
    \/ \E x \in Slots, a \in BOOLEAN : s = 1 /\ DoAccept(s, x, k, a)
    \/ k <= 1 /\ (DoFinish(s, k) \/ DoTerm(s, k))
    \/ k <= 2 /\ \E v \in BOOLEAN : DoSet(s, v, k)
    \/ k = 0 /\ \E n \in {-1, 0, 1, 2}, x \in Xfers : DoSend(s, n, x) \/ DoRecv(s, n, x)
PipeNext == \E p \in {0, 1}, k \in 0..2 :
    \/ /\ ~pp[p] /\ k <= 1
       /\ LET h == IF k = 0 THEN [has EXCEPT !.fd = @ + 2] ELSE has
              r == Reply(IF k = 0 THEN 0 ELSE -1, "", IF k = 0 THEN "" ELSE "pipe", h)
              st == Pipe(p, r) /\ has' = h /\ Tidy(r)
          IN Do(st, "pipe," \o N(p) \o F(k))
    \/ /\ pp[p]
       /\ LET h == [has EXCEPT !.fd = @ - 2]
              r == Reply(IF k = 0 THEN 0 ELSE -1, "", IF k = 0 THEN "" ELSE "close", h)
              st == PipeTerm(p, r) /\ has' = h /\ Tidy(r)
          IN Do(st, "pipeterm," \o N(p) \o F(k))
    \/ /\ ~po[p]
       /\ LET h == IF k = 0 THEN [has EXCEPT !.fd = @ + 1, !.mem = @ + 1] ELSE has
              r == Reply(IF k = 0 THEN 0 ELSE -1, "", <<"", "malloc", "epoll_create1">>[k + 1], h)
              st == Poll(p, r) /\ has' = h /\ Tidy(r)
          IN Do(st, "poll," \o N(p) \o F(k))
    \/ /\ po[p] /\ k <= 1
       /\ LET h == [has EXCEPT !.fd = @ - 1, !.mem = @ - 1]
              r == Reply(IF k = 0 THEN 0 ELSE -1, "", IF k = 0 THEN "" ELSE "close", h)
              st == PollTerm(p, r) /\ has' = h /\ Tidy(r)
          IN Do(st, "pollterm," \o N(p) \o F(k))
Next == ("sock" \in Kinds /\ SockNext) \/ ("pipe" \in Kinds /\ PipeNext)
Spec == Init0 /\ [][Next]_vars
View1 == ivars
Emit == PrintT("T|" \o fam \o ";" \o (IF sk[1].blk THEN "1" ELSE "0") \o (IF sk[2].blk THEN "1" ELSE "0") \o (IF sk[3].blk THEN "1" ELSE "0") \o ";" \o hist')
Holds == has.fd = FdsOf(sk, pp, po) /\ has.gai = 0
\* nothing is held once everything was terminated
Clean == (\A s \in Slots : ~Held(sk[s])) /\ (\A p \in Pipes : ~pp[p] /\ ~po[p]) => has = [fd |-> 0, gai |-> 0, mem |-> 0]
=============================================================================
