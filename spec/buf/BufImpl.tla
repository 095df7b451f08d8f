------------------------------- MODULE BufImpl -------------------------------
(* The arithmetic of positions and capacities behind sc_buf on one buffer, for  *)
(* every position of small buffers: of the caller's memory (ref) or growing by  *)
(* blocks of 4096, from a base position near such a boundary.  Invariants on     *)
(* the positions; prints one test per transition (#n stands for n bytes).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Caps, Base, Span, Growing
VARIABLES rp, wp, cap, ok, lim, ref, done, hist, last
V == <<rp, wp, cap, ok, lim, ref, done, last>>
S(n) == ToString(n)
Up(n) == ((n + 4095) \div 4096) * 4096
Huge == "18446744073709551615"
NoLim == 1000000
Init == /\ cap \in Caps /\ ref = ~Growing
        /\ lim \in (IF Growing THEN {NoLim, 4096, 6000} ELSE {cap})
        /\ wp = Base /\ rp \in {0, Base} /\ ok = TRUE /\ done = FALSE /\ last = ""
        /\ Base <= cap /\ lim >= cap
        /\ hist = (IF Growing THEN "init 0 " \o S(cap) \o ";" ELSE "wrap 0 " \o S(cap) \o " 8 #" \o S(cap) \o ";")
               \o (IF Growing /\ lim # NoLim THEN "limit 0 " \o S(lim) \o ";" ELSE "")
               \o (IF Base > 0 THEN "wput 0 #" \o S(Base) \o ";" ELSE "")
               \o (IF rp > 0 THEN "rget 0 " \o S(rp) \o ";" ELSE "")
Say(txt, op) == hist' = hist \o txt \o ";" /\ last' = op /\ UNCHANGED <<lim, ref>>
Stay == UNCHANGED <<rp, wp, cap, ok, done>>
\* reserve n bytes: new capacity, or -1
Res(n) == IF wp + n <= cap THEN cap ELSE IF ref \/ Up(cap + n) > lim THEN -1 ELSE Up(cap + n)
Put(n, txt) == /\ LET c == Res(n) IN
                   IF ok /\ c >= 0 THEN wp' = wp + n /\ cap' = c /\ UNCHANGED <<rp, ok, done>>
                   ELSE ok' = FALSE /\ UNCHANGED <<rp, wp, cap>> /\ done' = (n > 8 \/ ~ok)
               /\ Say(txt, "put")
Final(txt) == done' = TRUE /\ Say(txt, "final") /\ UNCHANGED <<rp, wp, cap, ok>>
W == {1, 2, 4, 8}
Next == /\ ~done
        /\ \/ \E k \in {1, 2, 3} : wp + k <= cap /\ wp' = wp + k /\ Say("wput 0 #" \o S(k), "wput") /\ UNCHANGED <<rp, cap, ok, done>>
           \/ \E k \in {1, 2, 3} : rp >= Base /\ rp + k <= wp /\ rp' = rp + k /\ Say("rget 0 " \o S(k), "rget") /\ UNCHANGED <<wp, cap, ok, done>>
           \/ \E w \in W : Put(w, "put 0 " \o S(w))
           \/ \E n \in 0..3 : Put(n, "putraw 0 #" \o S(n))
           \/ \E n \in 0..3 : Put(n + 9, "putstr 0 #" \o S(n))
           \/ Put(8, "putstr 0 N")
           \/ \E n \in 0..2 : Final("putfmt 0 #" \o S(n)) \/ Final("putblob 0 #" \o S(n)) \/ Final("putstrlen 0 #" \o S(n))
           \/ \E n \in 0..5 : Final("puttext 0 #" \o S(n))
           \/ \E n \in 0..5 : Final("puttext 0 #" \o S(n) \o ";puttext 0 #" \o S(3))
           \/ \E w \in W : Final("get 0 " \o S(w)) \/ Final("peek 0 " \o S(w)) \/ Final("setw 0 " \o S(w))
           \/ Final("getbool 0") \/ Final("getstr 0") \/ Final("compact 0") \/ Final("clear 0") \/ Final("double 0")
           \/ \E n \in 0..3 \union {8, 9} : Final("getblob 0 " \o S(n)) \/ Final("getdata 0 " \o S(n))
           \/ Final("getblob 0 " \o Huge)
           \/ \E w \in W, p \in Base..(Base + Span + 1) : Final("peekat 0 " \o S(w) \o " " \o S(p)) \/ Final("setat 0 " \o S(w) \o " " \o S(p))
           \/ \E w \in W, p \in {"18446744073709551615", "18446744073709551608", "9223372036854775808"} :
                 Final("peekat 0 " \o S(w) \o " " \o p) \/ Final("setat 0 " \o S(w) \o " " \o p)
           \/ \E p \in Base..(Base + Span + 1), n \in {0, 1, 3} : Final("peekdata 0 " \o S(p) \o " " \o S(n)) \/ Final("setdata 0 " \o S(p) \o " #" \o S(n))
           \/ Final("peekdata 0 " \o Huge \o " 3") \/ Final("setdata 0 " \o Huge \o " #3")
           \/ \E p \in (Base..(Base + Span + 1)) \union {0} : Final("setrpos 0 " \o S(p)) \/ Final("setwpos 0 " \o S(p))
           \/ Final("setrpos 0 " \o Huge) \/ Final("setwpos 0 " \o Huge)
           \/ \E n \in {0, 1, 2, 7, 8, 9, 4096, 4097} : Final("reserve 0 " \o S(n)) \/ Final("shrink 0 " \o S(n))
           \/ \E n \in {Huge, "18446744073709551000", "18446744073709547520", "9223372036854775808"} :
                 Final("reserve 0 " \o n \o ";put 0 1;put 0 8;dump 0") \/ Final("shrink 0 " \o n)
           \/ \E c \in {0, 1, 4} : Final("init 1 " \o S(c) \o ";move 1 0;dump 1;move 0 1;dump 1")
Spec == Init /\ [][Next]_<<V, hist>>
InBounds == rp <= wp /\ wp <= cap /\ (cap <= lim \/ ~Growing)
Bound == wp <= Base + Span
Emit == PrintT("T|" \o hist' \o "dump 0;")
=============================================================================
