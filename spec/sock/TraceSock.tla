----------------------------- MODULE TraceSock -----------------------------
EXTENDS Sock, TraceBase
TInit == SInit /\ TraceStart
SetOf(q) == {q[k] : k \in 1..Len(q)}
T == Tidy(ev)
TNext ==
    \/ IsEvent("begin") /\ sk' = [s \in Slots |-> Blank] /\ pp' = [p \in Pipes |-> FALSE] /\ po' = [p \in Pipes |-> FALSE]
    \/ IsEvent("init") /\ Init(ev.s, ev.blk, ev.fam = "u") /\ T
    \/ IsEvent("listen") /\ Listen(ev.s, ev.good, ev.multi, ev.nb, ev.there, ev) /\ T
    \/ IsEvent("connect") /\ Connect(ev.s, ev.l, ev.srcok, ev.multi, ev.async, ev.nb, ev.from, ev) /\ T
    \/ IsEvent("accept") /\ Accept(ev.l, ev.s, ev.taken, ev.blocked, ev.nb, ev) /\ T
    \/ IsEvent("finish") /\ Finish(ev.s, ev) /\ T
    \/ IsEvent("send") /\ Send(ev.s, ev.n, ev.moved, ev.calls, ev.kern, ev) /\ T
    \/ IsEvent("recv") /\ Recv(ev.s, ev.n, ev.moved, ev.calls, ev.kern, SetOf(ev.ids), ev.clean, ev) /\ T
    \/ IsEvent("term") /\ Term(ev.s, ev) /\ T
    \/ IsEvent("setblk") /\ SetBlocking(ev.s, ev.v, ev.nb, ev) /\ T
    \/ IsEvent("timeo") /\ Timeout(ev.s, ev.ms, ev.got, ev) /\ T
    \/ IsEvent("addr") /\ Address(ev.len, ev.k, ev.known, ev.null, ev.term, ev.got, ev.want, ev) /\ T
    \/ IsEvent("pipe") /\ Pipe(ev.p, ev) /\ T
    \/ IsEvent("pwrite") /\ PipeMove(ev.p, ev.n, ev.moved, ev.kern, ev.ok, ev) /\ T
    \/ IsEvent("pread") /\ PipeMove(ev.p, ev.n, ev.moved, ev.kern, ev.ok, ev) /\ T
    \/ IsEvent("pipeterm") /\ PipeTerm(ev.p, ev) /\ T
    \/ IsEvent("poll") /\ Poll(ev.p, ev) /\ T
    \/ IsEvent("pollterm") /\ PollTerm(ev.p, ev) /\ T
    \/ IsEvent("notify") /\ Notify(ev.possible, ev.got, ev.same, ev.eset, ev.leak, ev) /\ T
    \/ IsEnd /\ UNCHANGED svars
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
