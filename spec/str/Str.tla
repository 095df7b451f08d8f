--------------------------------- MODULE Str ---------------------------------
(* Length-prefixed strings as byte sequences: four slots, each Null or a       *)
(* sequence of bytes 1..255.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES s, max
vars == <<s, max>>
Null == <<-1>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
ToSet(q) == {q[i] : i \in 1..Len(q)}
Last(q) == q[Len(q)]

\* ------------------------------------------------------------ values
\* occurrences of pattern p in t (0-based offsets)
Occ(t, p) == {i \in 0..(Len(t) - Len(p)) :
                 t[i + 1] = p[1] /\ SubSeq(t, i + 1, i + Len(p)) = p}
\* leftmost non-overlapping replacement from offset "from"
RECURSIVE Rep(_, _, _, _, _)
Rep(t, p, w, occ, from) ==
    LET o == {i \in occ : i >= from} IN
    IF o = {} THEN SubSeq(t, from + 1, Len(t))
    ELSE LET m == Min(o) IN SubSeq(t, from + 1, m) \o w \o Rep(t, p, w, o, m + Len(p))
Replace(t, p, w) == IF p = << >> \/ t = << >> THEN t ELSE Rep(t, p, w, Occ(t, p), 0)

Trim(t, list) ==
    LET d == ToSet(list)
        keep == {i \in 1..Len(t) : t[i] \notin d}
    IN  IF keep = {} THEN << >>
        ELSE LET a == CHOOSE x \in keep : \A y \in 1..(x - 1) : t[y] \in d
                 z == CHOOSE x \in keep : \A y \in (x + 1)..Len(t) : t[y] \in d
             IN  SubSeq(t, a, z)

RangeOk(t, a, z) == a <= z /\ z <= Len(t)
Substring(t, a, z) == SubSeq(t, a + 1, z)

\* The tokens of t: the runs between delimiters; the delimiter list of the i-th
\* call is ds[i] (cyclic).  At most k tokens are taken; returns <<tokens, finished>>.
Delims(ds, i) == ToSet(ds[((i - 1) % Len(ds)) + 1])
RECURSIVE Toks(_, _, _, _, _)
Toks(t, ds, i, k, from) ==
    IF i > k THEN <<<< >>, FALSE>>
    ELSE IF from > Len(t) + 1 THEN <<<< >>, TRUE>>
    ELSE LET d == {j \in from..Len(t) : t[j] \in Delims(ds, i)}
             e == IF d = {} THEN Len(t) + 1 ELSE Min(d)
             r == Toks(t, ds, i + 1, k, e + 1)
         IN  <<<<SubSeq(t, from, e - 1)>> \o r[1], r[2]>>
Tokens(t, ds, k) == Toks(t, ds, 1, k, 1)

RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n)
          ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
\* the formats of the driver's table: bytes x, integer n, bytes y
Format(kind, x, n, y) ==
    CASE kind = 0 -> x                                   \* "%s"
      [] kind = 1 -> Dec(n)                              \* "%d"
      [] kind = 2 -> <<120>> \o x \o <<121>> \o Dec(n) \o <<122>>  \* "x%sy%dz"
      [] kind = 3 -> x \o y                              \* "%s%s"
      [] kind = 4 -> <<37>> \o y                         \* "%%%s"
      [] OTHER    -> <<112, 108, 97, 105, 110>> \o x     \* "plain%s"

\* ------------------------------------------------------------ operations
TooBig(t) == max > 0 /\ Len(t) > max
\* an operation that gives slot i the value v, or is refused
Give(i, v, ok, failed, limited) ==
    IF ok THEN (limited => ~TooBig(v)) /\ s' = [s EXCEPT ![i] = v] /\ UNCHANGED max
          ELSE (failed \/ (limited /\ TooBig(v))) /\ UNCHANGED vars
\* creation into an empty slot (the driver destroys the old value first)
Create(i, v, ok, failed) ==
    LET e == [s EXCEPT ![i] = Null] IN
    IF ok THEN v # Null /\ ~TooBig(v) /\ s' = [e EXCEPT ![i] = v] /\ UNCHANGED max
          ELSE (failed \/ v = Null \/ TooBig(v)) /\ s' = e /\ UNCHANGED max
CreateRaw(i, v, ok, failed) ==
    LET e == [s EXCEPT ![i] = Null] IN
    IF ok THEN v # Null /\ s' = [e EXCEPT ![i] = v] /\ UNCHANGED max
          ELSE (failed \/ v = Null) /\ s' = e /\ UNCHANGED max
\* the documentation says that set/append refuse a NULL target, the code accepts it
Set(i, v, ok, failed) ==
    IF v = Null THEN ~ok /\ UNCHANGED vars
    ELSE IF s[i] = Null /\ ~ok THEN UNCHANGED vars
    ELSE Give(i, v, ok, failed, TRUE)
SetFmt(i, v, ok, failed) == Give(i, v, ok, failed, FALSE)
Append2(i, v, ok, failed) ==
    IF s[i] = Null THEN (IF ok THEN Give(i, v, ok, failed, TRUE) ELSE UNCHANGED vars)
    ELSE Give(i, s[i] \o v, ok, failed, TRUE)
AppendFmt(i, v, ok, failed) ==
    Give(i, IF s[i] = Null THEN v ELSE s[i] \o v, ok, failed, FALSE)
Cmp(i, j, r) == s[i] # Null /\ s[j] # Null /\ r = (s[i] = s[j]) /\ UNCHANGED vars
DoTrim(i, list, ok, failed) ==
    IF s[i] = Null THEN ok /\ UNCHANGED vars ELSE Give(i, Trim(s[i], list), ok, failed, FALSE)
DoSub(i, a, z, ok, failed) ==
    IF s[i] = Null \/ ~RangeOk(s[i], a, z) THEN ~ok /\ UNCHANGED vars
    ELSE Give(i, Substring(s[i], a, z), ok, failed, FALSE)
DoReplace(i, p, w, ok, failed) ==
    IF s[i] = Null THEN ok /\ UNCHANGED vars
    ELSE LET v == Replace(s[i], p, w) IN
         IF p = << >> THEN UNCHANGED vars    \* nothing to replace; any reply
         ELSE Give(i, v, ok, failed, v # s[i])
Destroy(i) == s' = [s EXCEPT ![i] = Null] /\ UNCHANGED max
\* every token in order; the string is whole again afterwards
DoTokens(i, ds, k, toks, fin) ==
    /\ UNCHANGED vars
    /\ IF s[i] = Null THEN toks = << >>
       ELSE <<toks, fin>> = Tokens(s[i], ds, k)
=============================================================================
