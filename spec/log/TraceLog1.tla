----------------------------- MODULE TraceLog1 -----------------------------
(* One thread: every sink's new bytes after every call (the time of day, after   *)
(* being compared with the clock, is replaced by T).                              *)
EXTENDS Log, TraceBase
VARIABLES name, lvl, out, cb, file, on
vars == <<S, name, lvl, out, cb, file, on>>
T1 == {0}
Thread == <<84, 104, 114, 101, 97, 100>>
TInit == S = {} /\ TraceStart /\ name = Thread /\ lvl = 1 /\ out = TRUE /\ cb = 0 /\ file = 0 /\ on = FALSE
Nothing == ev.so = << >> /\ ev.se = << >> /\ ev.sc = << >> /\ (\A f \in 1..3 : ev.sf[f] = << >>)
Same(x) == UNCHANGED x
Hits == lvl <= ev.lvl
Text == Rendered(ev.lvl, name, ev.text)
\* with a stdio call failing, the sink it belongs to may be left with a part; the others are whole
Delivered ==
    LET so == IF Hits /\ out /\ ev.lvl # Error THEN Text ELSE << >>
        se == IF Hits /\ out /\ ev.lvl = Error THEN Text ELSE << >>
        sc == IF Hits /\ cb # 0 THEN <<[lvl |-> ev.lvl, text |-> ev.text]>> ELSE << >>
        sf == [f \in 1..3 |-> IF Hits /\ file = f THEN Text ELSE << >>]
        bad == Cardinality({x \in {1, 2, 3} : (x = 1 /\ ev.so # so) \/ (x = 2 /\ ev.se # se) \/ (x = 3 /\ \E f \in 1..3 : ev.sf[f] # sf[f])})
    IN  /\ ev.sc = sc
        /\ IF ev.failed THEN bad <= 1 /\ ev.rc # 0 ELSE bad = 0 /\ ((ev.rc # 0) <=> (Hits /\ cb = 2))
TNext ==
    \/ IsEvent("begin") /\ UNCHANGED vars
    \/ IsEvent("init") /\ ev.rc = 0 /\ Nothing /\ lvl' = 1 /\ out' = TRUE /\ cb' = 0 /\ file' = 0 /\ on' = TRUE /\ UNCHANGED <<S, name>>
    \/ /\ IsEvent("level") /\ Nothing
       /\ LET v == LevelOf(ev.name) IN
            /\ (IF v < 0 THEN ev.rc < 0 /\ UNCHANGED lvl ELSE ev.rc = 0 /\ lvl' = v)
            /\ UNCHANGED <<S, name, out, cb, file, on>>
    \/ IsEvent("stdout") /\ Nothing /\ out' = ev.on /\ UNCHANGED <<S, name, lvl, cb, file, on>>
    \/ IsEvent("cb") /\ Nothing /\ cb' = ev.id /\ UNCHANGED <<S, name, lvl, out, file, on>>
    \/ IsEvent("name") /\ Nothing /\ name' = NameOf(ev.name) /\ UNCHANGED <<S, lvl, out, cb, file, on>>
    \* opening a file may start it with an empty line
    \/ /\ IsEvent("file")
            /\ ev.so = << >> /\ ev.se = << >> /\ ev.sc = << >>
            /\ (\A f \in 1..3 : ev.sf[f] \in (IF f = ev.f THEN {<< >>, <<10>>} ELSE {<< >>}))
            /\ (IF ev.wrong \/ ev.failed THEN ev.rc = -1 /\ ev.err # 0 /\ file' = 0 ELSE ev.rc = 0 /\ file' = ev.f)
            /\ UNCHANGED <<S, name, lvl, out, cb, on>>
    \/ IsEvent("log") /\ Delivered /\ UNCHANGED vars
    \/ IsEvent("term") /\ Nothing /\ (ev.rc = 0 <=> on) /\ on' = FALSE /\ UNCHANGED <<S, name, lvl, out, cb, file>>
    \/ IsEnd /\ ev.fds = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
