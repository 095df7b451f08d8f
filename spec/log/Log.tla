--------------------------------- MODULE Log ---------------------------------
(* The logger as its users see it: a level, a set of enabled sinks and, per     *)
(* sink, the sequence of messages it has received.  Logging is two instants:     *)
(* the level is looked at, then the message goes to every sink enabled at one     *)
(* later instant.  The state is the set of configurations consistent with the     *)
(* calls and returns so far (see Cond).                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Threads
VARIABLE S
Idle == [k |-> "idle", a |-> 0, b |-> 0, st |-> "idle", r |-> 0]
Error == 3
Files == 0..3
Fresh == [lvl |-> 1, out |-> TRUE, cb |-> 0, file |-> 0, so |-> << >>, se |-> << >>, sc |-> << >>,
          sf |-> [f \in Files |-> << >>], op |-> [t \in Threads |-> Idle]]
Steps(c, t) ==
    LET o == c.op[t]
        Done(d, r) == [d EXCEPT !.op[t].st = "done", !.op[t].r = r]
    IN  IF o.st = "called" THEN
            CASE o.k = "level" -> {IF o.a < 0 THEN Done(c, -1) ELSE Done([c EXCEPT !.lvl = o.a], 0)}
              [] o.k = "stdout" -> {Done([c EXCEPT !.out = (o.a = 1)], 0)}
              [] o.k = "cb" -> {Done([c EXCEPT !.cb = o.a], 0)}
              [] o.k = "file" -> {Done([c EXCEPT !.file = o.a], 0)}
              [] o.k = "log" -> {IF o.a < c.lvl THEN Done(c, 0) ELSE [c EXCEPT !.op[t].st = "checked"]}
              [] OTHER -> {}
        ELSE IF o.st = "checked" THEN
            LET c1 == IF c.out /\ o.a # Error THEN [c EXCEPT !.so = Append(@, o.b)] ELSE c
                c2 == IF c.out /\ o.a = Error THEN [c1 EXCEPT !.se = Append(@, o.b)] ELSE c1
                c3 == IF c.file # 0 THEN [c2 EXCEPT !.sf[c.file] = Append(@, o.b)] ELSE c2
                c4 == IF c.cb # 0 THEN [c3 EXCEPT !.sc = Append(@, o.b)] ELSE c3
            IN  {Done(c4, IF c.cb = 2 THEN -1 ELSE 0)}
        ELSE {}
RECURSIVE Closure(_)
Closure(X) == LET Y == X \union UNION {Steps(p[1], p[2]) : p \in X \X Threads}
              IN  IF Y = X THEN X ELSE Closure(Y)
Call(t, k, a, b) == /\ \A c \in S : c.op[t].st = "idle"
                    /\ S' = Closure({[c EXCEPT !.op[t] = [k |-> k, a |-> a, b |-> b, st |-> "called", r |-> 0]] : c \in S})
Ret(t, rc) == /\ S' = {[c EXCEPT !.op[t] = Idle] : c \in {x \in S : x.op[t].st = "done" /\ x.op[t].r = rc}}
              /\ S' # {}
\* everything returned, and the sinks hold what some configuration says; of a file that was
\* rotated (keep = FALSE) a suffix that ends with the last message is left
IsSuffix(q, w) == Len(q) <= Len(w) /\ q = SubSeq(w, Len(w) - Len(q) + 1, Len(w)) /\ (w # << >> => q # << >>)
Sinks(so, se, sc, sf, keep) ==
    \E c \in S : /\ \A t \in Threads : c.op[t].st = "idle"
                 /\ c.so = so /\ c.se = se /\ c.sc = sc
                 /\ \A f \in 1..Len(sf) : IF keep THEN sf[f] = c.sf[f] ELSE IsSuffix(sf[f], c.sf[f])
\* ---- one thread, byte for byte
Names == <<"DEBUG", "INFO", "WARN", "ERROR", "OFF">>
\* [T][LEVEL][thread] text, the level padded to five, T the local time of the call
LevelText == << <<68, 69, 66, 85, 71>>, <<73, 78, 70, 79, 32>>, <<87, 65, 82, 78, 32>>, <<69, 82, 82, 79, 82>> >>
LevelName == << <<68, 69, 66, 85, 71>>, <<73, 78, 70, 79>>, <<87, 65, 82, 78>>, <<69, 82, 82, 79, 82>>, <<79, 70, 70>> >>
Upper(q) == [i \in DOMAIN q |-> IF q[i] \in 97..122 THEN q[i] - 32 ELSE q[i]]
LevelOf(q) == IF \E i \in 1..5 : LevelName[i] = Upper(q) THEN (CHOOSE i \in 1..5 : LevelName[i] = Upper(q)) - 1 ELSE -1
NameOf(q) == IF Len(q) <= 31 THEN q ELSE SubSeq(q, 1, 31)
Rendered(lvl, name, text) == <<91, 84, 93, 91>> \o LevelText[lvl + 1] \o <<93, 91>> \o name \o <<93, 32>> \o text
=============================================================================
