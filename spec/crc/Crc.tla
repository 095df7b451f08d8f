-------------------------------- MODULE Crc --------------------------------
(* CRC-32C by its definition: reflected polynomial 0x82f63b78, one bit at a   *)
(* time.  A 32-bit value is <<high 16 bits, low 16 bits>>.                     *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
X(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Neg32(a) == <<65535 - a[1], 65535 - a[2]>>
Poly == <<33526, 15224>> \* 0x82f6, 0x3b78
Shr1(a) == <<a[1] \div 2, (a[2] \div 2) + (a[1] % 2) * 32768>>
BitStep(a) == IF a[2] % 2 = 1 THEN X(Shr1(a), Poly) ELSE Shr1(a)
\* the effect of eight bit steps on each low byte
Table == [n \in 0..255 |-> BitStep(BitStep(BitStep(BitStep(BitStep(BitStep(BitStep(BitStep(<<0, n>>))))))))]
ByteStep(a, b) == X(Table[(a[2] % 256) ^^ b], <<a[1] \div 256, (a[2] \div 256) + (a[1] % 256) * 256>>)
Crc(init, data) == Neg32(FoldLeft(ByteStep, Neg32(init), data))
\* runs of 2^k zero bytes at once: a step is linear, and this is its matrix (the images of the 32 bits, lowest first)
RECURSIVE Times(_, _, _), ZFold(_, _, _), Raise(_)
Half(w, i) == IF i <= 16 THEN (w[2] \div 2^(i - 1)) % 2 ELSE (w[1] \div 2^(i - 17)) % 2
Times(m, w, i) == IF i > 32 THEN <<0, 0>> ELSE IF Half(w, i) = 1 THEN X(m[i], Times(m, w, i + 1)) ELSE Times(m, w, i + 1)
One == [i \in 1..32 |-> ByteStep(IF i <= 16 THEN <<0, 2^(i - 1)>> ELSE <<2^(i - 17), 0>>, 0)]
Raise(s) == IF Len(s) = 36 THEN s ELSE Raise(Append(s, [i \in 1..32 |-> Times(s[Len(s)], s[Len(s)][i], 1)]))
Powers == Raise(<<One>>)
ZFold(w, n, k) == IF k > Len(n) THEN w ELSE ZFold(IF n[k] = 1 THEN Times(Powers[k], w, 1) ELSE w, n, k + 1)
\* a text, n zero bytes (given by its bits), a text
CrcZ(init, pre, n, suf) == Neg32(FoldLeft(ByteStep, ZFold(FoldLeft(ByteStep, Neg32(init), pre), n, 1), suf))
=============================================================================
