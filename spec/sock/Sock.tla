-------------------------------- MODULE Sock --------------------------------
(* Stream sockets, pipes and poll sets as their user sees them: what is connected   *)
(* to what, how many bytes were sent and received, the mode the kernel has, and      *)
(* what is held (descriptors, address lists, memory).  r is the reply of a call:     *)
(*   rc, err ("" / "EAGAIN" / "EOF" / "other"), text (an error text is set), fault    *)
(*   (the system call that failed, "" if none did), and what the process holds        *)
(*   after it: fds descriptors, bad closes of something not open, gai address lists,  *)
(*   live memory blocks.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Checks
VARIABLES sk, pp, po
svars == <<sk, pp, po>>
Pipes == {0, 1, 2}
D == "data" \in Checks
R == "res" \in Checks
Blank == [st |-> "none", u |-> FALSE, blk |-> TRUE, nb |-> FALSE, set |-> FALSE, peer |-> 0, src |-> 0, lim |-> 0, in |-> 0,
          wait |-> 0, pend |-> 0, loose |-> FALSE, refused |-> FALSE, q |-> <<>>]
SInit == sk = [s \in Slots |-> Blank] /\ pp = [p \in Pipes |-> FALSE] /\ po = [p \in Pipes |-> FALSE]
Held(s) == s.st \in {"listen", "conn"}
FdsOf(k, p, o) == Cardinality({s \in Slots : Held(k[s])}) + 2 * Cardinality({x \in Pipes : p[x]}) + Cardinality({x \in Pipes : o[x]})
\* nothing held but what the objects hold, nothing closed twice
Tidy(r) == R => /\ r.fds = FdsOf(sk', pp', po') /\ r.bad = 0 /\ r.gai = 0
                /\ r.live = Cardinality({x \in Pipes : po'[x]})
Text(r) == r.rc < 0 => r.text
\* a failed system call is reported, with its text
Reported(r) == r.fault # "" => r.rc < 0 /\ r.text
\* -------------------------------------------------------------- sockets
Idle(k) == [Blank EXCEPT !.st = "idle", !.u = k.u, !.blk = k.blk]
Init(s, blk, u) == ~Held(sk[s]) /\ sk' = [sk EXCEPT ![s] = [Blank EXCEPT !.st = "idle", !.u = u, !.blk = blk]] /\ UNCHANGED <<pp, po>>
Listen(s, good, multi, nb, there, r) ==
    /\ sk[s].st = "idle"
    /\ sk' = [sk EXCEPT ![s] = IF r.rc = 0 THEN [@ EXCEPT !.st = "listen", !.nb = nb] ELSE @]
    /\ UNCHANGED <<pp, po>>
    /\ R => ((multi /\ r.rc = 0) \/ Reported(r)) /\ Text(r)
    /\ D => /\ (r.fault = "" => (r.rc = 0) = good)
            /\ (r.rc = 0 => nb = ~sk[s].blk /\ there)
\* l: the listener reached, 0 if nobody listens there; multi: the name has several addresses, so that a failing
\* call need not be the end; async: the kernel's connect was made to say "in progress"
Connect(s, l, srcok, multi, async, nb, from, r) ==
    LET me == sk[s]
        later == r.rc < 0 /\ r.err = "EAGAIN" /\ ~me.blk /\ ~me.u /\ (r.fault = "" \/ async \/ multi)
        up == [me EXCEPT !.st = "conn", !.nb = nb]
    IN  /\ me.st = "idle"
        /\ UNCHANGED <<pp, po>>
        /\ sk' = IF r.rc < 0 /\ ~later THEN sk
                 ELSE IF l = 0 \/ async THEN [sk EXCEPT ![s] = [up EXCEPT !.loose = async, !.refused = ~async]]
                 ELSE [sk EXCEPT ![s] = [up EXCEPT !.wait = l, !.src = 0], ![l].q = Append(@, [id |-> s, pend |-> 0, gone |-> FALSE])]
        /\ R => /\ (r.fault # "" => (multi /\ r.rc = 0) \/ (r.rc < 0 /\ (later \/ r.text)))
                /\ (r.rc < 0 => later \/ r.text)
                /\ (async /\ ~me.blk /\ ~me.u => later)
        /\ D => /\ (r.fault = "" /\ srcok /\ l # 0 => r.rc = 0 \/ later)
                /\ (r.fault = "" /\ (~srcok \/ l = 0) => r.rc < 0)
                /\ (r.fault = "" /\ ~srcok => ~later)
                /\ (r.rc = 0 \/ later => nb = ~me.blk /\ from)
Accept(l, s, taken, blocked, nb, r) ==
    LET me == sk[l]
        e == Head(me.q)
        rest == Tail(me.q)
    IN  /\ me.st = "listen" /\ sk[s].st = "idle" /\ s # l
        /\ UNCHANGED <<pp, po>>
        /\ taken => me.q # <<>>
        /\ sk' = IF ~taken THEN sk
                 ELSE [x \in Slots |->
                   IF x = l THEN [me EXCEPT !.q = rest]
                   ELSE IF x = s /\ r.rc = 0
                        THEN [Blank EXCEPT !.st = "conn", !.u = me.u, !.blk = sk[s].blk, !.nb = nb, !.peer = IF e.gone THEN 0 ELSE e.id, !.src = e.id, !.lim = e.pend, !.loose = e.gone]
                   ELSE IF x = e.id /\ ~e.gone THEN (IF r.rc = 0 THEN [sk[x] EXCEPT !.wait = 0, !.peer = s, !.src = s] ELSE [sk[x] EXCEPT !.wait = 0, !.loose = TRUE])
                   ELSE sk[x]]
        /\ (r.rc = 0 => taken)
        /\ R => /\ (r.fault # "" => r.rc < 0)
                /\ (r.rc < 0 => r.text \/ (r.err = "EAGAIN" /\ ~me.blk /\ (r.fault = "" \/ blocked)))
        /\ D => /\ (r.fault = "" => (r.rc = 0) = (me.q # <<>>))
                /\ (r.fault = "" /\ r.rc < 0 => r.err = "EAGAIN")
                /\ (blocked /\ ~me.blk => r.err = "EAGAIN")
                /\ (r.rc = 0 /\ ~me.set => nb = ~me.blk)
Finish(s, r) ==
    /\ sk[s].st = "conn"
    /\ sk' = [sk EXCEPT ![s].refused = @ /\ r.fault # "", ![s].loose = @ \/ (sk[s].refused /\ r.fault = "")]
    /\ UNCHANGED <<pp, po>>
    /\ R => Reported(r) /\ Text(r)
    /\ D => /\ (r.fault = "" /\ ~sk[s].loose /\ ~sk[s].refused => r.rc = 0)
            /\ (r.fault = "" /\ sk[s].refused => r.rc < 0)
            /\ (r.fault = "so_error" => r.rc < 0)
\* what the last kernel call said decides the reply; moved: bytes that went over
Transfer(n, moved, calls, kern, r) ==
    D => IF n <= 0 THEN r.rc = n /\ calls = 0 /\ moved = 0
         ELSE /\ calls > 0 /\ kern # "EINTR"
              /\ (r.rc >= 0 => r.rc = moved)
              /\ (r.rc < 0 => moved = 0)
              /\ (kern = "data" => r.rc >= 0)
              /\ (kern = "EAGAIN" /\ moved = 0 => r.rc < 0 /\ r.err = "EAGAIN")
              /\ (kern = "eof" /\ moved = 0 => r.rc < 0 /\ r.err = "EOF")
              /\ (kern = "other" /\ moved = 0 => r.rc < 0 /\ r.err = "other" /\ r.text)
\* a transfer may be what reports that the connection was refused
Told(s) == [sk EXCEPT ![s].refused = FALSE, ![s].loose = TRUE]
Send(s, n, moved, calls, kern, r) ==
    LET me == sk[s]
        c == IF r.rc > 0 THEN r.rc ELSE 0
    IN  /\ me.st = "conn"
        /\ UNCHANGED <<pp, po>>
        /\ Transfer(n, moved, calls, kern, r)
        /\ r.rc <= n
        /\ sk' = IF me.refused /\ calls > 0 THEN Told(s)
                 ELSE IF me.peer # 0 THEN [sk EXCEPT ![me.peer].lim = @ + c]
                 ELSE IF me.wait # 0 THEN [sk EXCEPT ![me.wait].q = [k \in 1..Len(@) |-> IF @[k].id = s /\ ~@[k].gone THEN [@[k] EXCEPT !.pend = @ + c] ELSE @[k]]]
                 ELSE sk
\* ids: the streams whose next bytes are the ones received; clean: the rest of the buffer is untouched
Recv(s, n, moved, calls, kern, ids, clean, r) ==
    LET me == sk[s] IN
    /\ me.st = "conn"
    /\ UNCHANGED <<pp, po>>
    /\ Transfer(n, moved, calls, kern, r)
    /\ r.rc <= n
    /\ sk' = IF me.refused /\ calls > 0 THEN Told(s) ELSE [sk EXCEPT ![s].in = @ + (IF r.rc > 0 THEN r.rc ELSE 0)]
    /\ D => /\ clean
            /\ (r.rc > 0 => me.src \in ids /\ me.in + r.rc <= me.lim)
\* the end of a connection: what was sent stays sent
Term(s, r) ==
    LET me == sk[s] IN
    /\ me.st # "none"
    /\ UNCHANGED <<pp, po>>
    /\ sk' = [x \in Slots |->
         IF x = s THEN Idle(me)
         ELSE IF me.st = "listen" /\ sk[x].wait = s THEN [sk[x] EXCEPT !.wait = 0, !.loose = TRUE]
         ELSE IF me.st = "conn" /\ sk[x].peer = s THEN [sk[x] EXCEPT !.peer = 0, !.loose = TRUE]
         ELSE IF me.st = "conn" /\ me.wait = x THEN [sk[x] EXCEPT !.q = [k \in 1..Len(@) |-> IF @[k].id = s THEN [@[k] EXCEPT !.gone = TRUE] ELSE @[k]]]
         ELSE sk[x]]
    /\ R => Reported(r) /\ (r.fault = "" => r.rc = 0)
SetBlocking(s, v, nb, r) ==
    /\ Held(sk[s])
    /\ sk' = [sk EXCEPT ![s].nb = nb, ![s].set = TRUE]
    /\ UNCHANGED <<pp, po>>
    /\ R => Reported(r)
    /\ D => (r.fault = "" => r.rc = 0) /\ nb = IF r.rc = 0 THEN ~v ELSE sk[s].nb
Timeout(s, ms, got, r) ==
    /\ Held(sk[s]) /\ UNCHANGED svars
    /\ R => Reported(r)
    /\ D => (r.fault = "" => r.rc = 0) /\ (r.rc = 0 => got >= ms /\ got <= ms + 10)
Cut(w, n) == IF Len(w) < n THEN w ELSE SubSeq(w, 1, n - 1)
\* k: 0 local, 1 remote, 2 both; want: the address the kernel has; known: it has one
Address(len, k, known, null, term, got, want, r) ==
    /\ UNCHANGED svars
    /\ R => (k # 2 => Reported(r)) /\ term
    /\ D => /\ term
            /\ (k # 2 /\ r.fault = "" => null = ~known)
            /\ (null => got = <<>> /\ k # 2)
            /\ (~null /\ r.fault = "" => got = Cut(want, len) \/ (k = 2 /\ got = Cut(Append(want, 32), len)))
\* -------------------------------------------------------------- pipes, poll sets, systemd
Pipe(p, r) ==
    /\ ~pp[p] /\ pp' = [pp EXCEPT ![p] = (r.rc = 0)] /\ UNCHANGED <<sk, po>>
    /\ R => Reported(r) /\ (r.fault = "" => r.rc = 0)
PipeMove(p, n, moved, kern, ok, r) ==
    /\ pp[p] /\ UNCHANGED svars
    /\ D => /\ ok /\ kern # "EINTR"
            /\ (r.rc >= 0 => r.rc = moved)
            /\ (r.rc < 0 => moved = 0)
            /\ (kern \in {"data", "eof"} => r.rc >= 0)
            /\ (kern \in {"EAGAIN", "other"} /\ moved = 0 => r.rc < 0)
PipeTerm(p, r) == pp' = [pp EXCEPT ![p] = FALSE] /\ UNCHANGED <<sk, po>> /\ (R => Reported(r) /\ (r.fault = "" => r.rc = 0))
Poll(p, r) ==
    /\ ~po[p] /\ po' = [po EXCEPT ![p] = (r.rc = 0)] /\ UNCHANGED <<sk, pp>>
    /\ R => Reported(r) /\ (r.fault = "" => r.rc = 0)
PollTerm(p, r) == po' = [po EXCEPT ![p] = FALSE] /\ UNCHANGED <<sk, pp>> /\ (R => Reported(r) /\ (r.fault = "" => r.rc = 0))
Notify(possible, got, same, eset, leak, r) ==
    /\ UNCHANGED svars
    /\ R => leak = 0 /\ (r.fault \notin {"", "close"} => r.rc < 0 /\ eset)
    /\ D => /\ (r.fault = "" => (r.rc = 0) = possible)
            /\ (r.rc < 0 => eset)
            /\ (r.fault \in {"", "close"} /\ possible => got /\ same)
            /\ (~possible => ~got)
\* received is never more than sent
Prefix == \A s \in Slots : D => sk[s].in <= sk[s].lim
\* connections are between two, and a waiting one is in its listener's queue
Linked == \A s \in Slots :
    /\ (sk[s].peer # 0 => sk[sk[s].peer].peer = s)
    /\ (sk[s].wait # 0 => \E k \in 1..Len(sk[sk[s].wait].q) : sk[sk[s].wait].q[k].id = s /\ ~sk[sk[s].wait].q[k].gone)
=============================================================================
