--------------------------------- MODULE Sc ---------------------------------
(* The utility functions as mathematics.  64-bit numbers are seven limbs of    *)
(* base 1024, least significant first; texts are byte sequences.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* ------------------------------------------------------------------ random
\* The generator of the documentation (SQLite's RC4): state and key are the seed.
Ksa(N, seed) ==
    LET step(st, k) == LET j == (st.j + st.s[k] + seed[k]) % N IN
            [st EXCEPT !.j = j, !.s[k] = st.s[j + 1], !.s[j + 1] = st.s[k]]
    IN FoldLeft(step, [i |-> 0, j |-> 0, s |-> seed], [k \in 1..N |-> k])
Draw(N, st) ==
    LET i == (st.i + 1) % N
        j == (st.j + st.s[i + 1]) % N
        s == [st.s EXCEPT ![i + 1] = st.s[j + 1], ![j + 1] = st.s[i + 1]]
    IN [i |-> i, j |-> j, s |-> s, o |-> s[((s[i + 1] + s[j + 1]) % N) + 1]]
\* <<state after, bytes>> of a read of n
Read(N, st, n) ==
    LET step(a, k) == LET d == Draw(N, a[1]) IN <<[i |-> d.i, j |-> d.j, s |-> d.s], Append(a[2], d.o)>>
    IN FoldLeft(step, <<st, << >>>>, [k \in 1..n |-> k])
\* ------------------------------------------------------------ powers of two
\* bits, least significant first
Ones(b) == {i \in DOMAIN b : b[i] = 1}
IsPow2(b) == Cardinality(Ones(b)) = 1
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* index of the only bit of the least power of two >= b (Len + 1: does not fit)
Pow2Of(b) == IF Ones(b) = {} THEN 1 ELSE IF IsPow2(b) THEN MaxOf(Ones(b)) ELSE MaxOf(Ones(b)) + 1
\* ------------------------------------------------------------ bytes -> text
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Limb(v, i) == IF i + 1 \in DOMAIN v THEN v[i + 1] ELSE 0
Top(v) == IF \A i \in DOMAIN v : v[i] = 0 THEN 0 ELSE MaxOf({i \in DOMAIN v : v[i] # 0}) - 1
UnitName == <<75, 77, 71, 84, 80, 69>> \* K M G T P E
\* value in 1/1024 of unit u, rounded down
Count(v, u) == Limb(v, u - 1) + 1024 * Limb(v, u) + 1048576 * Limb(v, u + 1)
\* hundredths of a unit that two decimals may show
Hundredths(c) == LET m == (100 * c) \div 1024 IN
    {h \in {m - 1, m, m + 1, m + 2} : h >= 0 /\ 1024 * h >= 100 * c - 512 /\ 1024 * h <= 100 * (c + 1) + 512}
Show(h, u) == Digits(h \div 100) \o <<46, 48 + ((h % 100) \div 10), 48 + (h % 10), 32, UnitName[u], 66>>
Near1024(v, u) == 100 * Count(v, u) >= 102390 * 1024
Texts(v) == LET k == Top(v) IN
    IF k = 0 THEN {Digits(Limb(v, 0)) \o <<32, 66>>}
    ELSE {Show(h, k) : h \in {x \in Hundredths(Count(v, k)) : k = 6 \/ x < 102400}} \union
         (IF k < 6 /\ Near1024(v, k) THEN {Show(h, k + 1) : h \in Hundredths(Count(v, k + 1))} ELSE {})
\* ------------------------------------------------------------ text -> bytes
Blank(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Digit(c) == c >= 48 /\ c <= 57
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
At(q, i) == IF i \in DOMAIN q THEN q[i] ELSE 0
RECURSIVE SkipB(_, _), SkipD(_, _), SkipS(_, _), Carry(_, _, _)
SkipB(q, i) == IF Blank(At(q, i)) THEN SkipB(q, i + 1) ELSE i
SkipD(q, i) == IF Digit(At(q, i)) THEN SkipD(q, i + 1) ELSE i
SkipS(q, i) == IF At(q, i) = 32 THEN SkipS(q, i + 1) ELSE i
\* limbs * 10 + carry; the eighth limb collects what is too large
Carry(L, i, c) == IF i > 7 THEN (IF c # 0 THEN [L EXCEPT ![8] = 1] ELSE L)
                  ELSE LET x == L[i] * 10 + c IN Carry([L EXCEPT ![i] = x % 1024], i + 1, x \div 1024)
Zero8 == [i \in 1..8 |-> 0]
Number(d) == FoldLeft(LAMBDA L, c : Carry(L, 1, c - 48), Zero8, d)
Big(L) == L[8] # 0 \/ L[7] >= 8
Scale(L, k) == [i \in 1..8 |-> IF i = 8 THEN (IF \E j \in 1..8 : j + k > 7 /\ L[j] # 0 THEN 1 ELSE 0)
                               ELSE IF i - k >= 1 THEN L[i - k] ELSE 0]
UnitOf(c) == LET S == {u \in 1..6 : Lower(c) = UnitName[u] + 32} IN IF Lower(c) = 98 THEN 0 ELSE IF S = {} THEN -1 ELSE CHOOSE u \in S : TRUE
Bad == << >>
\* the answers a text may get: seven limbs, or Bad
Sizes(q) ==
    LET a == SkipB(q, 1)
        neg == At(q, a) = 45
        b == IF At(q, a) \in {43, 45} THEN a + 1 ELSE a
        e == SkipD(q, b)
        f == SkipS(q, e)
        rest == SubSeq(q, f, Len(q))
        L == Number(SubSeq(q, b, e - 1))
        u == UnitOf(At(q, f))
        S == Scale(L, u)
        res == IF Big(S) THEN Bad ELSE SubSeq(S, 1, 7)
        zero == L = Zero8
        \* forms the documentation leaves open
        open == f > e + 1 \/ (f > e /\ rest = << >>) \/ (Len(rest) = 2 /\ u = 0) \/ (neg /\ zero)
    IN IF e = b \/ (neg /\ ~zero) \/ Big(L) THEN {Bad}
       ELSE IF rest = << >> THEN {SubSeq(L, 1, 7)} \union (IF open THEN {Bad} ELSE {})
       ELSE IF u = -1 \/ Len(rest) > 2 \/ (Len(rest) = 2 /\ Lower(rest[2]) # 98) THEN {Bad}
       ELSE {res} \union (IF open THEN {Bad} ELSE {})
=============================================================================
