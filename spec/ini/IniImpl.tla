------------------------------ MODULE IniImpl ------------------------------
(* The parser as the code runs it: a line buffer with a terminator, in-place   *)
(* scans, one step per line.  For every text of the configuration the items    *)
(* and the result equal those of the grammar; each text is printed as a test.  *)
EXTENDS Ini, TLC
CONSTANTS Alpha, MaxLen, Heads
VARIABLES txt, pos, line, sec, key, items, rc, fin
vars == <<txt, pos, line, sec, key, items, rc, fin>>
PreA == {<< >>, <<107, 61, 118, 10>>, Bom}
PreB == {<< >>, <<91, 115, 93, 10, 107, 58, 118, 10>>, Bom \o <<107, 61, 10>>}
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<< >>} ELSE Strs(n - 1) \union {Append(q, a) : q \in {x \in Strs(n - 1) : Len(x) = n - 1}, a \in Alpha}
Init == /\ txt \in {p \o s : p \in Heads, s \in Strs(MaxLen)}
        /\ pos = 1 /\ line = 0 /\ sec = << >> /\ key = << >> /\ items = << >> /\ rc = 0 /\ fin = FALSE
At(b, i) == IF i > Len(b) THEN 0 ELSE b[i]
\* copy up to the newline or the end of the text, keep what fits the buffer
RECURSIVE Scan(_, _)
Scan(t, i) == IF i > Len(t) \/ t[i] = NL THEN i ELSE Scan(t, i + 1)
\* strchr(s, ' ') repeatedly, from offset h
RECURSIVE CommentFrom(_, _)
CommentFrom(b, i) ==
    IF i > Len(b) THEN Len(b)
    ELSE IF b[i] = 32 THEN (IF At(b, i + 1) \in {59, 35} THEN i ELSE CommentFrom(b, i + 1))
    ELSE CommentFrom(b, i + 1)
CutComment(b, h) == IF At(b, h) \in {0, 59, 35} THEN SubSeq(b, 1, h - 1) ELSE SubSeq(b, 1, CommentFrom(b, h))
RECURSIVE SkipSp(_, _), BackSp(_, _, _)
SkipSp(b, i) == IF At(b, i) \in Space THEN SkipSp(b, i + 1) ELSE i
BackSp(b, lo, i) == IF i > lo /\ At(b, i) \in Space THEN BackSp(b, lo, i - 1) ELSE i
\* trim_space: new head and the cut buffer (the end may not pass the head)
TrimAt(b, h) == LET p == SkipSp(b, h) e == BackSp(b, p, Len(b)) IN <<p, SubSeq(b, 1, e)>>
CStr(b, h) == SubSeq(b, h, Len(b))
RECURSIVE Find(_, _, _)
Find(b, i, S) == IF i > Len(b) THEN 0 ELSE IF b[i] \in S THEN i ELSE Find(b, i + 1, S)
NextLine ==
    /\ ~fin /\ rc = 0 /\ pos <= Len(txt)
    /\ LET e == Scan(txt, pos)
           raw == First(SubSeq(txt, pos, e - 1), MaxLine)
           n == line + 1
           h0 == IF n = 1 /\ HasBom(raw) THEN 4 ELSE 1
           b1 == CutComment(raw, h0)
           t == TrimAt(b1, h0)
           h == t[1] b == t[2]
           close == Find(b, h, {93}) eq == Find(b, h, {61, 58})
           kt == TrimAt(SubSeq(b, 1, eq - 1), h)
           vt == TrimAt(b, eq + 1)
       IN  /\ pos' = e + 1 /\ line' = n
           /\ IF h > Len(b) THEN UNCHANGED <<sec, key, items, rc>>
              ELSE IF h > 1 /\ key # << >> THEN items' = Append(items, Item(n, sec, key, CStr(b, h))) /\ UNCHANGED <<sec, key, rc>>
              ELSE IF b[h] = 91 THEN
                   IF close = 0 THEN rc' = n /\ UNCHANGED <<sec, key, items>>
                   ELSE key' = << >> /\ sec' = First(SubSeq(b, h + 1, close - 1), MaxName) /\ UNCHANGED <<items, rc>>
              ELSE IF eq = 0 THEN rc' = n /\ UNCHANGED <<sec, key, items>>
              ELSE /\ key' = First(CStr(kt[2], h), MaxName)
                   /\ items' = Append(items, Item(n, sec, CStr(kt[2], h), CStr(vt[2], vt[1])))
                   /\ UNCHANGED <<sec, rc>>
    /\ UNCHANGED <<txt, fin>>
HexD(x) == SubSeq("0123456789abcdef", x + 1, x + 1)
RECURSIVE Hex(_)
Hex(q) == IF q = << >> THEN "" ELSE HexD(Head(q) \div 16) \o HexD(Head(q) % 16) \o Hex(Tail(q))
Done == /\ ~fin /\ (rc # 0 \/ pos > Len(txt)) /\ fin' = TRUE /\ UNCHANGED <<txt, pos, line, sec, key, items, rc>>
        /\ (txt # << >> => PrintT("T|" \o Hex(txt)))
Next == NextLine \/ Done
Spec == Init /\ [][Next]_vars
Agrees == fin => LET r == Parse(txt, 0) IN r.items = items /\ r.rc = rc
\* the pieces seen so far never disagree with the grammar either
Prefix == LET r == Parse(txt, 0) IN Len(items) <= Len(r.items) /\ items = SubSeq(r.items, 1, Len(items))
=============================================================================
