------------------------------ MODULE FmtImpl ------------------------------
(* The formatter as the code works: it walks the format, appending pieces cut to *)
(* the room left.  For every format of up to MaxPieces pieces and every size the   *)
(* result is that of Fmt, and nothing is stored outside the buffer.  Every case is  *)
(* printed as a test.                                                                *)
EXTENDS Fmt, TLC
CONSTANTS MaxPieces, MaxSize
VARIABLES pieces, fmt, args, sz, i, out, k, st
vars == <<pieces, fmt, args, sz, i, out, k, st>>
A(s, n) == [s |-> s, d |-> n, u |-> n, ld |-> n, lu |-> n, p |-> n]
Arg == A(<<97, 98>>, <<55>>)
NArg == A(Null, <<49, 48>>)
\* format pieces: text, a string, a number, a long long, a pointer, a percent sign, unsupported ones
Piece == <<<<120>>, <<pct, 115>>, <<pct, 100>>, <<pct, 108, 108, 117>>, <<pct, 112>>, <<pct, pct>>, <<pct>>, <<pct, 108>>, <<pct, 108, 100>>, <<pct, 99>>, <<108, 100>> >>
RECURSIVE Cat(_)
Cat(q) == IF q = << >> THEN << >> ELSE Piece[Head(q)] \o Cat(Tail(q))
AllSeqs == UNION {[1..n -> 1..Len(Piece)] : n \in 0..MaxPieces}
Init == /\ pieces \in AllSeqs /\ fmt = Cat(pieces) /\ sz \in 0..MaxSize
        /\ args = <<Arg, NArg, Arg, NArg, Arg>> /\ i = 1 /\ out = << >> /\ k = 1 /\ st = "run"
Room == (IF sz = 0 THEN 0 ELSE sz - 1) - Len(out)
Put(t) == out' = out \o SubSeq(t, 1, IF Len(t) < Room THEN Len(t) ELSE Room)
Keep == UNCHANGED <<pieces, fmt, args, sz>>
Step == /\ st = "run" /\ Keep
        /\ IF i > Len(fmt) THEN st' = "done" /\ UNCHANGED <<i, out, k>>
           ELSE IF fmt[i] # pct THEN Put(<<fmt[i]>>) /\ i' = i + 1 /\ UNCHANGED <<k, st>>
           ELSE LET c == IF i + 1 <= Len(fmt) THEN fmt[i + 1] ELSE 0
                    skip == IF c = 108 THEN (IF i + 2 <= Len(fmt) /\ fmt[i + 2] = 108 THEN 2 ELSE 1) ELSE 0
                    e == IF i + 1 + skip <= Len(fmt) THEN fmt[i + 1 + skip] ELSE 0
                IN  IF c = pct THEN Put(<<pct>>) /\ i' = i + 2 /\ UNCHANGED <<k, st>>
                    ELSE IF c = 115 THEN Put(IF args[k].s = Null THEN NullText ELSE args[k].s) /\ i' = i + 2 /\ k' = k + 1 /\ UNCHANGED st
                    ELSE IF c = 112 THEN Put(<<48, 120>> \o args[k].p) /\ i' = i + 2 /\ k' = k + 1 /\ UNCHANGED st
                    ELSE IF e \in {100, 117} /\ (skip > 0 \/ c \in {100, 117}) THEN Put(args[k].d) /\ i' = i + 2 + skip /\ k' = k + 1 /\ UNCHANGED st
                    ELSE st' = "fail" /\ UNCHANGED <<i, out, k>>
Next == Step
Spec == Init /\ [][Next]_vars
Bounded == Len(out) <= (IF sz = 0 THEN 0 ELSE sz - 1)
Right == /\ st = "done" => FmtOk(fmt, args, sz, Len(out), out)
         /\ st = "fail" => FmtOk(fmt, args, sz, -1, << >>)
RECURSIVE Show(_)
Show(q) == IF q = << >> THEN "" ELSE ToString(Head(q)) \o "," \o Show(Tail(q))
Emit == (st' \in {"done", "fail"}) => PrintT("T|" \o Show(fmt) \o " " \o ToString(sz))
=============================================================================
