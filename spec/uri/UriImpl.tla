------------------------------ MODULE UriImpl ------------------------------
(* The parser as the code runs it: one cursor moving left to right over the    *)
(* string, a step per part, each part a length from the cursor.  For every      *)
(* string of the configuration: it fails exactly where the grammar does,         *)
(* otherwise the pieces are the grammar's and are contiguous.                    *)
EXTENDS Uri, TLC
CONSTANTS Alpha, MaxLen, Heads
VARIABLES t, pos, pc, parts, res
vars == <<t, pos, pc, parts, res>>
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<< >>} ELSE Strs(n - 1) \union {Append(q, a) : q \in {x \in Strs(n - 1) : Len(x) = n - 1}, a \in Alpha}
HeadsA == {<< >>}
HeadsB == {<<97, 58, 47, 47>>}                       \* a://
HeadsC == {<<97, 58, 47, 47, 104, 58>>, <<97, 58, 47, 47, 104, 58, 54>>, <<97, 58, 47, 47, 104, 58, 54, 53, 53>>,
           <<97, 58, 47, 47, 64, 58, 48, 48>>}   \* around ports
Init == t \in {h \o s : h \in Heads, s \in Strs(MaxLen)} /\ pos = 1 /\ pc = "scheme" /\ parts = << >> /\ res = "run"
\* C string scanning: strcspn and strchr from a position; the terminator is at Len+1
RECURSIVE Span(_, _, _)
Span(q, i, S) == IF i > Len(q) \/ q[i] \in S THEN i ELSE Span(q, i + 1, S)
Sub(a, b) == SubSeq(t, a, b - 1)
Fail == res' = "null" /\ pc' = "done" /\ UNCHANGED <<t, pos, parts>>
Go(p, k, np) == parts' = Append(parts, p) /\ pc' = k /\ pos' = np /\ UNCHANGED <<t, res>>
End == Span(t, pos, {47, 63, 35})
Scheme == /\ pc = "scheme"
          /\ LET p == Span(t, 1, {58}) IN
             IF p > Len(t) \/ p = 1 \/ Span(t, 1, {47, 63, 35}) < p THEN Fail
             ELSE IF At(t, p + 1) = 47 /\ At(t, p + 2) = 47 THEN Go(Sub(1, p), "user", p + 3)
             ELSE parts' = <<Sub(1, p), << >>, << >>, << >>>> /\ pc' = "path" /\ pos' = p + 1 /\ UNCHANGED <<t, res>>
User == pc = "user" /\ LET p == Span(t, pos, {64}) IN
        IF p <= Len(t) /\ p < End THEN Go(Sub(pos, p), "host", p + 1) ELSE Go(<< >>, "host", pos)
Host == pc = "host" /\
        LET lit == At(t, pos) = 91
            p == IF lit THEN Span(t, pos, {93}) + 1 ELSE Span(t, pos, {58, 47, 63, 35})
        IN  IF lit /\ p > End THEN Fail ELSE Go(Sub(pos, p), "port", p)
Port == pc = "port" /\
        IF pos = End THEN Go(<< >>, "path", pos)
        ELSE IF At(t, pos) # 58 \/ pos + 1 > Len(t) \/ (\E i \in pos + 1..End - 1 : t[i] \notin Digit) THEN Fail
        ELSE IF ~PortOk(Sub(pos + 1, End)) THEN Fail
        ELSE Go(Sub(pos + 1, End), "path", End)
Path == pc = "path" /\ LET p == Span(t, pos, {63, 35}) IN Go(Sub(pos, p), "query", p)
Query == pc = "query" /\ IF At(t, pos) = 63 THEN LET p == Span(t, pos, {35}) IN Go(Sub(pos + 1, p), "frag", p) ELSE Go(<< >>, "frag", pos)
Frag == pc = "frag" /\ parts' = Append(parts, IF At(t, pos) = 35 THEN Sub(pos + 1, Len(t) + 1) ELSE << >>)
        /\ res' = "ok" /\ pc' = "done" /\ pos' = Len(t) + 1 /\ UNCHANGED t
HexD(x) == SubSeq("0123456789abcdef", x + 1, x + 1)
RECURSIVE Hex(_)
Hex(q) == IF q = << >> THEN "" ELSE HexD(Head(q) \div 16) \o HexD(Head(q) % 16) \o Hex(Tail(q))
Say == pc = "done" /\ pc' = "said" /\ UNCHANGED <<t, pos, parts, res>> /\ (t # << >> => PrintT("T|" \o Hex(t)))
Next == Scheme \/ User \/ Host \/ Port \/ Path \/ Query \/ Frag \/ Say
Spec == Init /\ [][Next]_vars
Agrees == pc = "done" => LET g == Split(t) IN
    /\ res = "ok" => g.ok /\ g.parts = parts
    /\ res = "null" => ~g.ok \/ g.empty_port
Whole == pc = "scheme" => LET g == Split(t) IN g.ok => g.whole = t
=============================================================================
