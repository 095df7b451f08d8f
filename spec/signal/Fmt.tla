-------------------------------- MODULE Fmt --------------------------------
(* The signal-safe formatter: its text is that of the C library for the          *)
(* supported directives, cut to the buffer, always terminated.  Strings are byte   *)
(* sequences, NULL is <<-1>>; numbers are given by their decimal (or, for          *)
(* pointers, hexadecimal) numerals.                                                 *)
EXTENDS Integers, Sequences
Null == <<-1>>
NullText == <<40, 110, 117, 108, 108, 41>>
Fail == <<-2>>
Has(f, i, s) == i + Len(s) - 1 <= Len(f) /\ SubSeq(f, i, i + Len(s) - 1) = s
pct == 37
\* directives: text after the percent sign, and which numeral of the argument it shows
Dirs == << <<115>>, <<100>>, <<117>>, <<108, 100>>, <<108, 117>>, <<108, 108, 100>>, <<108, 108, 117>>, <<112>> >>
Kind == <<"s", "d", "u", "ld", "lu", "lld", "llu", "p">>
DirAt(f, i) == {k \in 1..8 : Has(f, i + 1, Dirs[k])}
ArgText(k, a) == IF k = 1 THEN (IF a.s = Null THEN NullText ELSE a.s)
                 ELSE IF k = 8 THEN <<48, 120>> \o a.p
                 ELSE CASE k = 2 -> a.d [] k = 3 -> a.u [] k \in {4, 6} -> a.ld [] OTHER -> a.lu
RECURSIVE Render(_, _, _)
Render(f, i, args) ==
    IF i > Len(f) THEN << >>
    ELSE IF f[i] # pct THEN LET r == Render(f, i + 1, args) IN IF r = Fail THEN Fail ELSE <<f[i]>> \o r
    ELSE IF Has(f, i + 1, <<pct>>) THEN LET r == Render(f, i + 2, args) IN IF r = Fail THEN Fail ELSE <<pct>> \o r
    ELSE IF DirAt(f, i) = {} THEN Fail
    ELSE LET k == CHOOSE x \in DirAt(f, i) : TRUE
             r == Render(f, i + 1 + Len(Dirs[k]), Tail(args))
         IN  IF r = Fail THEN Fail ELSE ArgText(k, Head(args)) \o r
Cut(t, sz) == IF sz = 0 THEN << >> ELSE SubSeq(t, 1, IF Len(t) < sz - 1 THEN Len(t) ELSE sz - 1)
\* result and buffer contents (up to the terminator)
FmtOk(f, args, sz, rc, out) ==
    LET t == Render(f, 1, args) IN
    IF t = Fail THEN rc = -1
    ELSE rc = Len(Cut(t, sz)) /\ (sz > 0 => out = Cut(t, sz))
LogOk(f, args, sz, out) ==
    LET t == Render(f, 1, args) IN out = IF t = Fail THEN << >> ELSE Cut(t, sz)
=============================================================================
