-------------------------------- MODULE Time --------------------------------
(* Clock readings and sleeps; 64-bit numbers are decimal digit sequences      *)
(* without leading zeros (zero is the empty sequence).                         *)
EXTENDS Integers, Sequences
RECURSIVE Strip(_), Pad(_, _)
Strip(d) == IF d = << >> \/ Head(d) # 0 THEN d ELSE Strip(Tail(d))
Pad(n, k) == IF k = 0 THEN << >> ELSE Append(Pad(n \div 10, k - 1), n % 10)
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = << >> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Lex(Tail(a), Tail(b))
Le(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Lex(a, b))
\* the instant <<digits of seconds, nanoseconds>> in milliseconds, nanoseconds
Ms(c) == Strip(c[1] \o Pad(c[2] \div 1000000, 3))
Ns(c) == Strip(c[1] \o Pad(c[2], 9))
\* milliseconds -> <<seconds, nanoseconds>>
Low(d, k) == LET p == SubSeq(<<0, 0, 0>> \o d, Len(d) + 1, Len(d) + 3) IN p[1] * 100 + p[2] * 10 + p[3]
Span(d) == <<IF Len(d) <= 3 THEN << >> ELSE SubSeq(d, 1, Len(d) - 3), Low(d, 3) * 1000000>>
Reading(f, clk) == CASE f = "time_ms" -> Ms(clk.real) [] f = "time_ns" -> Ns(clk.real)
                     [] f = "mono_ms" -> Ms(clk.mono) [] f = "mono_ns" -> Ns(clk.mono)
=============================================================================
