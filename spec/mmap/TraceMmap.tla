----------------------------- MODULE TraceMmap -----------------------------
(* A file may be there from the start; positions may count from any page-aligned    *)
(* place in it.                                                                     *)
(* Resources are counted from the start of the chunk: every open map holds one     *)
(* descriptor and one mapping, nothing else does.                                   *)
EXTENDS Mmap, TraceBase
TInit == MInit /\ TraceStart
Set(q) == {q[i] : i \in 1..Len(q)}
NF == [ex |-> ev.ex, size |-> ev.size, nz |-> Set(ev.nz)]
Held == LET k == Cardinality({s \in Slots : map'[s].on}) IN ev.maps = k /\ ev.fds = k
\* a failure comes with an error text that names the failing call's error
Text == ev.rc < 0 => ev.text /\ (ev.fault \notin {"", "EINTR"} => ev.named)
Excuse == ev.fault \notin {"", "EINTR"}
TNext ==
    \/ IsEvent("begin") /\ file' = [None EXCEPT !.ex = ev.ex, !.size = ev.size] /\ UNCHANGED map
    \/ IsEvent("init") /\ Open(ev.s, ev.creat, ev.trunc, ev.rdwr, ev.w, ev.sh, ev.off, ev.len, Excuse, ev.rc, ev.mlen, NF, Set(ev.view)) /\ Held /\ Text
    \/ IsEvent("store") /\ Store(ev.s, ev.p, ev.v, NF) /\ Held /\ \A s \in Slots : map'[s].on => Set(ev.views[s]) = Shown(file', map'[s])
    \/ IsEvent("msync") /\ Sync(ev.s, ev.off, ev.len, Excuse, ev.rc, Set(ev.pages)) /\ Held /\ Text
    \/ IsEvent("mlock") /\ Lock(ev.s, ev.off, ev.len, Excuse, ev.rc, Set(ev.pages)) /\ Held /\ Text
    \/ IsEvent("munlock") /\ Unlock(ev.s, ev.off, ev.len, Excuse, ev.rc, Set(ev.pages)) /\ Held /\ Text
    \/ IsEvent("term") /\ Close(ev.s, ev.fault = "munmap", ev.rc, NF) /\ Held /\ Text
    \/ IsEnd /\ UNCHANGED mvars
TSpec == TInit /\ [][TNext]_<<mvars, l>>
=============================================================================
