------------------------------- MODULE StrImpl -------------------------------
(* The algorithms the code uses for replacing (two passes: count, then copy),  *)
(* trimming (scan from both ends) and tokenising (the delimiter is swapped with *)
(* the terminating NUL), checked against the values of Str for every string,    *)
(* pattern, list and stopping point of the configuration, and printing one      *)
(* test per case.                                                               *)
EXTENDS Str
CONSTANTS Alpha, MaxLen, MaxPat
VARIABLES t, buf, save, toks, ds, phase, hist
mvars == <<s, max, t, buf, save, toks, ds, phase, hist>>
Strs(n) == UNION {[1..k -> Alpha] : k \in 0..n}
HexD(x) == SubSeq("0123456789abcdef", x + 1, x + 1)
RECURSIVE Hex(_)
Hex(q) == IF q = << >> THEN "" ELSE HexD(Head(q) \div 16) \o HexD(Head(q) % 16) \o Hex(Tail(q))
H(q) == IF q = << >> THEN "-" ELSE Hex(q)

MInit == /\ s = [i \in 0..3 |-> Null] /\ max = 0
         /\ t \in Strs(MaxLen)
         /\ buf = t \o <<0>> /\ save = 0 /\ toks = << >> /\ ds \in SUBSET Alpha
         /\ phase = "init" /\ hist = ""
Say(txt) == hist' = "create 0 " \o H(t) \o ";" \o txt
Keep == UNCHANGED <<s, max, t>>

\* ---- replace: first pass counts (leftmost, skipping a whole match each time), second pass copies
RECURSIVE Count(_, _, _)
Count(x, p, from) ==
    LET o == {i \in Occ(x, p) : i >= from} IN IF o = {} THEN 0 ELSE 1 + Count(x, p, Min(o) + Len(p))
RECURSIVE Copy(_, _, _, _, _)
Copy(x, p, w, c, from) ==
    IF c = 0 THEN SubSeq(x, from + 1, Len(x))
    ELSE LET m == Min({i \in Occ(x, p) : i >= from})
         IN  SubSeq(x, from + 1, m) \o w \o Copy(x, p, w, c - 1, m + Len(p))
\* same length: in place, searching the partly replaced string
RECURSIVE InPlace(_, _, _, _)
InPlace(x, p, w, from) ==
    LET o == {i \in Occ(x, p) : i >= from} IN
    IF o = {} THEN x
    ELSE LET m == Min(o) IN
         InPlace(SubSeq(x, 1, m) \o w \o SubSeq(x, m + Len(p) + 1, Len(x)), p, w, m + Len(p))
ImplReplace(x, p, w) ==
    IF x = << >> THEN x ELSE IF Len(p) = Len(w) THEN InPlace(x, p, w, 0)
    ELSE LET c == Count(x, p, 0) r == Copy(x, p, w, c, 0)
         IN  IF Len(r) = Len(x) + c * (Len(w) - Len(p)) THEN r ELSE <<-2>>
MReplace == /\ phase = "init" /\ ds = {}
            /\ \E p \in Strs(MaxPat) \ {<< >>}, w \in Strs(MaxPat) :
                 /\ Assert(ImplReplace(t, p, w) = Replace(t, p, w), <<t, p, w>>)
                 /\ Say("replace 0 " \o H(p) \o " " \o H(w))
            /\ phase' = "done" /\ Keep /\ UNCHANGED <<buf, save, toks, ds>>

\* ---- trim: skip listed characters from the front, then from the back but not past the front
RECURSIVE Skip(_, _, _), Back(_, _, _, _)
Skip(x, l, i) == IF i <= Len(x) /\ x[i] \in l THEN Skip(x, l, i + 1) ELSE i
Back(x, l, h, e) == IF e > h /\ x[e - 1] \in l THEN Back(x, l, h, e - 1) ELSE e
SetSeq(q) == LET RECURSIVE F(_) F(S) == IF S = {} THEN << >> ELSE LET m == Min(S) IN <<m>> \o F(S \ {m}) IN F(q)
MTrim == /\ phase = "init"
         /\ LET h == Skip(t, ds, 1) e == Back(t, ds, h, Len(t) + 1) IN
              Assert(SubSeq(t, h, e - 1) = Trim(t, SetSeq(ds)), <<t, ds>>)
         /\ Say("trim 0 " \o H(SetSeq(ds)))
         /\ phase' = "done" /\ Keep /\ UNCHANGED <<buf, save, toks, ds>>
MSub == /\ phase = "init" /\ ds = {}
        /\ \E a \in 0..(MaxLen + 1), z \in 0..(MaxLen + 1) : Say("sub 0 " \o ToString(a) \o " " \o ToString(z))
        /\ phase' = "done" /\ Keep /\ UNCHANGED <<buf, save, toks, ds>>

\* ---- tokens: buf is the memory (index 1..len+1), save the saved position (0: none)
Swap(b, i) == [b EXCEPT ![i] = b[Len(b)], ![Len(b)] = b[i]]
CStr(b, from) == LET z == Min({j \in from..Len(b) : b[j] = 0}) IN SubSeq(b, from, z - 1)
Span(b, from) == Min({j \in from..Len(b) : b[j] \in ds \union {0}})
MTok == /\ phase \in {"init", "tok"} /\ Len(toks) <= MaxLen + 1
        /\ LET b1 == IF save = 0 THEN buf ELSE Swap(buf, save)
               fin == save # 0 /\ b1[save] = 0
               it == save + 1
               sv == Span(b1, it)
           IN  IF fin THEN phase' = "fin" /\ buf' = b1 /\ UNCHANGED <<save, toks>>
               ELSE /\ phase' = "tok" /\ save' = sv /\ buf' = Swap(b1, sv)
                    /\ toks' = Append(toks, CStr(Swap(b1, sv), it))
        /\ Say("tokens 0 " \o ToString(Len(toks) + 1) \o " " \o H(SetSeq(ds)))
        /\ Keep /\ UNCHANGED ds
MEnd == /\ phase \in {"tok", "fin"}
        /\ buf' = IF buf[Len(buf)] = 0 THEN buf ELSE Swap(buf, save)
        /\ phase' = "ended" /\ Keep /\ UNCHANGED <<save, toks, ds, hist>>
MNext == MReplace \/ MTrim \/ MSub \/ MTok \/ MEnd
MSpec == MInit /\ [][MNext]_mvars
TokOk == phase \in {"tok", "fin", "ended"} =>
            LET r == Tokens(t, <<SetSeq(ds)>>, Len(toks) + 1) IN
            /\ SubSeq(r[1], 1, Len(toks)) = toks
            /\ phase = "fin" => r[1] = toks
Restored == phase \in {"fin", "ended"} => buf = t \o <<0>>
Emit == PrintT("T|" \o hist')
=============================================================================
