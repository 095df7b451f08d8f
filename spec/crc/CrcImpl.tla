------------------------------ MODULE CrcImpl ------------------------------
(* Both algorithms of the code, scaled down: a crc of 8 bits, "bytes" of 2     *)
(* bits (so a crc is 4 bytes), words of 8 bytes, three-way blocks of Short and *)
(* Long bytes.  Everything is affine in the data and the initial value, so the *)
(* data with one bit set (and none) decide all contents of a length.           *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC, FiniteSets
CONSTANTS Poly8, Short, Long, Lens
VARIABLES len, al, pos, ini, pc
vars == <<len, al, pos, ini, pc>>
Bit(a) == IF a % 2 = 1 THEN (a \div 2) ^^ Poly8 ELSE a \div 2
T0 == [n \in 0..3 |-> Bit(Bit(n))]
Byte(c, b) == T0[(c % 4) ^^ b] ^^ (c \div 4)
Def(c, d) == 255 - FoldLeft(Byte, 255 - c, d)
\* --- software: tables of a byte followed by k zero bytes
RECURSIVE Tab(_, _), Pow(_, _)
Tab(k, n) == IF k = 0 THEN T0[n] ELSE LET c == Tab(k - 1, n) IN T0[c % 4] ^^ (c \div 4)
TT == [k \in 0..7 |-> [n \in 0..3 |-> Tab(k, n)]]
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
P4 == [k \in 0..7 |-> Pow(4, k)]
Word(d, i) == d[i] + 4 * d[i+1] + 16 * d[i+2] + 64 * d[i+3] + 256 * d[i+4] + 1024 * d[i+5] + 4096 * d[i+6] + 16384 * d[i+7]
RECURSIVE HeadB(_, _, _), SwWords(_, _, _), Tail8(_, _, _)
\* <<crc, next index>>: byte steps up to the alignment boundary
HeadB(c, d, i) == IF i > Len(d) \/ (al + i - 1) % 8 = 0 THEN <<c, i>> ELSE HeadB(Byte(c, d[i]), d, i + 1)
SwWords(c, d, i) == IF Len(d) - i + 1 < 8 THEN <<c, i>> ELSE
    LET w == c ^^ Word(d, i) t(k) == TT[7 - k][(w \div P4[k]) % 4]
    IN SwWords(((t(0) ^^ t(1)) ^^ (t(2) ^^ t(3))) ^^ ((t(4) ^^ t(5)) ^^ (t(6) ^^ t(7))), d, i + 8)
Tail8(c, d, i) == IF i > Len(d) THEN c ELSE Tail8(Byte(c, d[i]), d, i + 1)
Sw(c, d) == LET h == HeadB(255 - c, d, 1) w == SwWords(h[1], d, h[2]) IN 255 - Tail8(w[1], d, w[2])
\* --- hardware: three streams joined by the zeros operator
Instr(c, d, i) == Byte(Byte(Byte(Byte(Byte(Byte(Byte(Byte(c, d[i]), d[i+1]), d[i+2]), d[i+3]), d[i+4]), d[i+5]), d[i+6]), d[i+7])
RECURSIVE Times(_, _, _), Zeros(_, _, _), Stream(_, _, _, _), Blocks(_, _, _, _, _), HwWords(_, _, _)
Times(m, v, n) == IF v = 0 THEN 0 ELSE (IF v % 2 = 1 THEN m[n] ELSE 0) ^^ Times(m, v \div 2, n + 1)
Square(m) == [n \in 0..7 |-> Times(m, m[n], 0)]
OneBit == [n \in 0..7 |-> IF n = 0 THEN Poly8 ELSE Pow(2, n - 1)]
\* squaring once per halving of the length, starting from one zero bit (a byte is two)
Zeros(m, n, k) == IF n = 0 THEN m ELSE Zeros(Square(m), n \div 2, k + 1)
ZShort == LET m == Zeros(OneBit, Short, 0) IN [v \in 0..255 |-> Times(m, v, 0)]
ZLong == LET m == Zeros(OneBit, Long, 0) IN [v \in 0..255 |-> Times(m, v, 0)]
Stream(c, d, i, n) == IF n = 0 THEN c ELSE Stream(Instr(c, d, i), d, i + 8, n - 8)
Blocks(c, d, i, B, Z) == IF Len(d) - i + 1 < 3 * B THEN <<c, i>> ELSE
    LET a == Stream(c, d, i, B) b == Stream(0, d, i + B, B) e == Stream(0, d, i + 2 * B, B)
    IN Blocks(Z[Z[a] ^^ b] ^^ e, d, i + 3 * B, B, Z)
HwWords(c, d, i) == IF Len(d) - i + 1 < 8 THEN <<c, i>> ELSE HwWords(Instr(c, d, i), d, i + 8)
Hw(c, d) == LET h == HeadB(255 - c, d, 1) x == Blocks(h[1], d, h[2], Long, ZLong) y == Blocks(x[1], d, x[2], Short, ZShort)
                w == HwWords(y[1], d, y[2]) IN 255 - Tail8(w[1], d, w[2])
Basis == {1, 2}
AllLens == (0..60) \union (71..82) \union (94..128)
Data == [i \in 1..len |-> IF i = (pos + 1) \div 2 THEN (IF pos % 2 = 1 THEN 1 ELSE 2) ELSE 0]
Init == /\ len \in Lens /\ al \in 0..7 /\ pos \in 0..(2 * len) /\ pc = "run"
        /\ ini \in (IF pos = 0 THEN {0, 1, 2, 4, 8, 16, 32, 64, 128} ELSE {0})
Min2(a, b) == IF a < b THEN a ELSE b
HeadLen == Min2(len, (8 - al) % 8)
Run == /\ pc = "run" /\ pc' = "done" /\ UNCHANGED <<len, al, pos, ini>>
       /\ (IF pos = 0 /\ ini = 0 THEN LET r == len - HeadLen IN
             PrintT("T|" \o ToString(al) \o " " \o ToString(HeadLen) \o " " \o ToString(r \div (3 * Long)) \o " " \o ToString((r % (3 * Long)) \div (3 * Short))
                    \o " " \o ToString((r % (3 * Short)) \div 8) \o " " \o ToString(r % 8)) ELSE TRUE)
Next == Run
Spec == Init /\ [][Next]_vars
SwRight == pc = "run" => Sw(ini, Data) = Def(ini, Data)
HwRight == pc = "run" => Hw(ini, Data) = Def(ini, Data)
\* feeding the result on is the same as one call (Def itself, any cut)
Chains == pc = "run" => LET k == pos \div 2 IN Def(Def(ini, SubSeq(Data, 1, k)), SubSeq(Data, k + 1, len)) = Def(ini, Data)
=============================================================================
