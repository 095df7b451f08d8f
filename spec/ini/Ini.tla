--------------------------------- MODULE Ini ---------------------------------
(* The INI grammar as a function from the bytes of a text to the items it      *)
(* contains and the outcome, stated line by line and without any scanning      *)
(* algorithm.  Bytes are integers.                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS MaxLine, MaxName      \* bytes of a line that count; bytes of a stored name
Space == {9, 10, 11, 12, 13, 32}
NL == 10
First(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
\* positions of the bytes of S in q, and the least of them or a default
Pos(q, S) == {i \in DOMAIN q : q[i] \in S}
FirstPos(q, S) == IF Pos(q, S) = {} THEN 0 ELSE SelectInSeq(q, LAMBDA x : x \in S)
Trim(q) == LET k == {i \in DOMAIN q : q[i] \notin Space} IN
           IF k = {} THEN << >>
           ELSE SubSeq(q, SelectInSeq(q, LAMBDA x : x \notin Space), SelectLastInSeq(q, LAMBDA x : x \notin Space))
\* a comment starts with ; or # at the start of the line or after a blank
Uncomment(q) == LET c == {i \in DOMAIN q : q[i] \in {59, 35} /\ (i = 1 \/ q[i - 1] = 32)} IN
                IF c = {} THEN q ELSE SubSeq(q, 1, Min(c) - 1)
Bom == <<239, 187, 191>>
HasBom(q) == Len(q) >= 3 /\ SubSeq(q, 1, 3) = Bom
\* the lines of a text: pieces between newlines; nothing follows a final newline
Lines(t) ==
    LET nl == SetToSortSeq(Pos(t, {NL}), <)
        n == Len(nl)
        Piece(i) == SubSeq(t, (IF i = 1 THEN 1 ELSE nl[i - 1] + 1), (IF i > n THEN Len(t) ELSE nl[i] - 1))
        all == [i \in 1..(n + 1) |-> Piece(i)]
    IN  IF all[n + 1] = << >> THEN SubSeq(all, 1, n) ELSE all

Start == [line |-> 0, sec |-> << >>, key |-> << >>, items |-> << >>, rc |-> 0]
Item(n, s, k, v) == [n |-> n, s |-> s, k |-> k, v |-> v]
\* stop: 0, or the number of the item at which the callback asks to stop
Emit(st, n, s, k, v, stop) ==
    LET it == Append(st.items, Item(n, s, k, v)) IN
    [st EXCEPT !.items = it, !.rc = IF stop # 0 /\ Len(it) = stop THEN n ELSE 0]
Line(st, raw, stop) ==
    IF st.rc # 0 THEN st ELSE
    LET n == st.line + 1
        q == First(raw, MaxLine)
        bom == n = 1 /\ HasBom(q)
        u == Uncomment(IF bom THEN SubSeq(q, 4, Len(q)) ELSE q)
        h == Trim(u)
        indented == bom \/ (u # << >> /\ u[1] \in Space)
        s1 == [st EXCEPT !.line = n]
        close == FirstPos(h, {93})
        eq == FirstPos(h, {61, 58})
    IN  IF h = << >> THEN s1
        ELSE IF indented /\ st.key # << >> THEN Emit(s1, n, st.sec, st.key, h, stop)
        ELSE IF h[1] = 91 THEN
            IF close = 0 THEN [s1 EXCEPT !.rc = n]
            ELSE [s1 EXCEPT !.key = << >>, !.sec = First(SubSeq(h, 2, close - 1), MaxName)]
        ELSE IF eq = 0 THEN [s1 EXCEPT !.rc = n]
        ELSE LET k == Trim(SubSeq(h, 1, eq - 1)) IN
             Emit([s1 EXCEPT !.key = First(k, MaxName)], n, st.sec, k, Trim(SubSeq(h, eq + 1, Len(h))), stop)
ParseLines(ls, stop) == FoldLeft(LAMBDA st, raw : Line(st, raw, stop), Start, ls)
Parse(t, stop) == ParseLines(Lines(t), stop)
=============================================================================
