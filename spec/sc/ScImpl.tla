------------------------------- MODULE ScImpl -------------------------------
(* The four algorithms as the code runs them, over all small inputs; each case *)
(* becomes a test of the real functions.                                       *)
EXTENDS Sc, TLC
CONSTANTS Alpha, MaxLen, LimbVals
VARIABLES kind, in, out, pc
vars == <<kind, in, out, pc>>
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<< >>} ELSE Strs(n - 1) \union {Append(q, x) : q \in {y \in Strs(n - 1) : Len(y) = n - 1}, x \in Alpha}
Splits == UNION {[1..n -> -1..3] : n \in 0..3}
Init == /\ pc = "run" /\ out = << >>
        /\ \/ kind = "size" /\ in \in Strs(MaxLen)
           \/ kind = "human" /\ in \in {v \in [1..7 -> LimbVals] : v[7] < 16}
           \/ kind = "pow2" /\ in \in [1..8 -> {0, 1}]
           \/ kind = "rand" /\ in \in {<<s, r>> : s \in [1..4 -> 0..3], r \in Splits}
\* --- sc_size_to_bytes: strtoll, skip blanks, suffix of at most two characters
MaxDiv(k) == [i \in 1..7 |-> IF i < 7 - k THEN 1023 ELSE IF i = 7 - k THEN 7 ELSE 0]
RECURSIVE Greater(_, _, _)
Greater(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE Greater(a, b, i - 1)
SizeC(q) ==
    LET a == SkipB(q, 1) b == IF At(q, a) \in {43, 45} THEN a + 1 ELSE a e == SkipD(q, b) L == Number(SubSeq(q, b, e - 1))
        f == SkipS(q, e) cnt == Len(q) + 1 - f v == SubSeq(L, 1, 7)
        c == Lower(At(q, f)) k == CASE c = 98 -> 0 [] c = 107 -> 1 [] c = 109 -> 2 [] c = 103 -> 3 [] c = 116 -> 4 [] c = 112 -> 5 [] c = 101 -> 6 [] OTHER -> -1
    IN IF e = b \/ Big(L) \/ (At(q, a) = 45 /\ v # SubSeq(Zero8, 1, 7)) THEN Bad
       ELSE IF cnt = 0 THEN v
       ELSE IF cnt > 2 \/ (cnt = 2 /\ Lower(q[f + 1]) # 98) THEN Bad
       ELSE IF k = -1 THEN Bad ELSE IF k > 0 /\ Greater(v, MaxDiv(k), 7) THEN Bad
       ELSE [i \in 1..7 |-> IF i - k >= 1 THEN v[i - k] ELSE 0]
\* --- sc_bytes_to_size: threshold table shifted by multiples of ten bits
TOK == <<204, 819, 204, 819, 972, 1023, 0>> \* 0xfffcccccccccccc
Shr(v, k) == [i \in 1..7 |-> Limb(v, i - 1 + k)]
RECURSIVE Pick(_, _, _)
Pick(v, i, n) == IF i < 0 \/ ~Greater(v, Shr(TOK, i), 7) THEN n ELSE Pick(v, i - 1, n + 1)
HumanC(v) == IF Top(v) = 0 THEN Digits(v[1]) \o <<32, 66>>
    ELSE LET n == Pick(v, 4, 0)
             c == Limb(v, n) + 1024 * Limb(v, n + 1) + 1048576 * Limb(v, n + 2)
             x == 100 * c  h == x \div 1024  r == x % 1024
         IN Show(IF r > 512 \/ (r = 512 /\ h % 2 = 1) THEN h + 1 ELSE h, n + 1)
\* --- sc_to_pow2: decrement, smear, increment
RECURSIVE Dec(_, _), Inc(_, _), Smear(_, _)
Dec(b, i) == IF b[i] = 1 THEN [b EXCEPT ![i] = 0] ELSE Dec([b EXCEPT ![i] = 1], i + 1)
Inc(b, i) == IF i > Len(b) THEN b ELSE IF b[i] = 0 THEN [b EXCEPT ![i] = 1] ELSE Inc([b EXCEPT ![i] = 0], i + 1)
Smear(b, i) == IF i >= Len(b) THEN b ELSE Smear([k \in DOMAIN b |-> IF b[k] = 1 \/ At(b, k + i) = 1 THEN 1 ELSE 0], 2 * i)
Pow2C(b) == IF Ones(b) = {} THEN [b EXCEPT ![1] = 1] ELSE Inc(Smear(Dec(b, 1), 1), 1)
\* --- sc_rand: reads one after the other, non-positive sizes do nothing
RandC(s, r) == FoldLeft(LAMBDA a, n : IF n <= 0 THEN a ELSE LET x == Read(4, a[1], n) IN <<x[1], a[2] \o x[2]>>, <<Ksa(4, s), << >>>>, r)
Run == /\ pc = "run" /\ pc' = "done" /\ UNCHANGED <<kind, in>>
       /\ out' = CASE kind = "size" -> SizeC(in) [] kind = "human" -> HumanC(in) [] kind = "pow2" -> Pow2C(in)
                   [] kind = "rand" -> RandC(in[1], in[2])[2]
RECURSIVE Join(_)
Join(q) == IF q = << >> THEN "" ELSE " " \o ToString(Head(q)) \o Join(Tail(q))
Say == pc = "done" /\ pc' = "said" /\ UNCHANGED <<kind, in, out>>
       /\ (IF kind \in {"size", "human"} THEN PrintT("T|" \o kind \o Join(in)) ELSE TRUE)
Next == Run \/ Say
Spec == Init /\ [][Next]_vars
Sum(r) == FoldLeft(LAMBDA a, n : a + (IF n > 0 THEN n ELSE 0), 0, r)
Agrees == pc = "done" => CASE kind = "size" -> out \in Sizes(in)
    [] kind = "human" -> out \in Texts(in)
    [] kind = "pow2" -> Pow2Of(in) <= 8 => (IsPow2(out) /\ Ones(out) = {Pow2Of(in)})
    [] kind = "rand" -> out = Read(4, Ksa(4, in[1]), Sum(in[2]))[2]
=============================================================================
