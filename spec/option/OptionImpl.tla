----------------------------- MODULE OptionImpl -----------------------------
(* The lookup loop of the code, one table entry per step: prefix comparison by  *)
(* length and bytes.  Every table and argument of the configuration.            *)
EXTENDS Option, TLC
CONSTANTS Alpha, MaxLen
VARIABLES tab, a, i, id, val, pc
vars == <<tab, a, i, id, val, pc>>
K == 107 E == 101 M == 109
Tables == {<<[l |-> M, n |-> NoName], [l |-> K, n |-> <<K>>], [l |-> E, n |-> <<K, E>>]>>,
           <<[l |-> E, n |-> <<K, E, K>>], [l |-> K, n |-> <<M, Dash, K>>], [l |-> M, n |-> <<E>>]>>,
           <<[l |-> K, n |-> << >>], [l |-> M, n |-> <<K, E>>]>>,
           <<[l |-> 0, n |-> <<K>>], [l |-> K, n |-> NoName]>>,
           << >>}
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<< >>} ELSE Strs(n - 1) \union {Append(q, x) : q \in {y \in Strs(n - 1) : Len(y) = n - 1}, x \in Alpha}
Init == tab \in Tables /\ a \in {h \o s : h \in {<< >>, <<Dash>>, <<Dash, Dash>>}, s \in Strs(MaxLen)}
        /\ i = 1 /\ id = Unknown /\ val = NoValue /\ pc = "run"
RECURSIVE EndName(_)
EndName(p) == IF p > Len(a) \/ a[p] = Eq THEN p ELSE EndName(p + 1)
After(p) == IF At(a, p) = Eq THEN Drop(a, p) ELSE Drop(a, p - 1)
Found(l, p) == id' = l /\ val' = After(p) /\ pc' = "done" /\ UNCHANGED <<tab, a, i>>
Skip == i' = i + 1 /\ UNCHANGED <<tab, a, id, val, pc>>
Stop == pc' = "done" /\ UNCHANGED <<tab, a, i, id, val>>
Step == pc = "run" /\
    IF At(a, 1) # Dash \/ i > Len(tab) THEN Stop
    ELSE IF At(a, 2) # Dash THEN
        IF Len(a) > 1 /\ a[2] = tab[i].l /\ At(a, 3) \in {0, Eq, 32} THEN Found(At(a, 2), 3) ELSE Skip
    ELSE LET p == EndName(2) len == p - 3 IN
        IF tab[i].n # NoName /\ len = Len(tab[i].n) /\ (\A j \in 1..len : tab[i].n[j] = a[2 + j]) THEN Found(tab[i].l, p) ELSE Skip
HexD(x) == SubSeq("0123456789abcdef", x + 1, x + 1)
RECURSIVE Hex(_), Opts(_)
Hex(q) == IF q = << >> THEN "" ELSE HexD(Head(q) \div 16) \o HexD(Head(q) % 16) \o Hex(Tail(q))
H(q) == IF q = << >> THEN "-" ELSE IF q = NoName THEN "N" ELSE Hex(q)
Opts(q) == IF q = << >> THEN "" ELSE " " \o ToString(Head(q).l) \o " " \o H(Head(q).n) \o Opts(Tail(q))
Say == pc = "done" /\ pc' = "said" /\ UNCHANGED <<tab, a, i, id, val>>
       /\ PrintT("T|table" \o Opts(tab) \o ";" \o H(a))
Next == Step \/ Say
Spec == Init /\ [][Next]_vars
Agrees == pc = "done" => <<id, val>> \in Answers(tab, a)
\* an answer names its option: exact letter, or exact whole name
Exact == pc = "done" /\ id # Unknown => \E k \in DOMAIN tab : tab[k].l = id /\
            (At(a, 2) = id \/ Drop(a, 2) = tab[k].n \o (IF val = << >> /\ Eqs(a) = 0 THEN << >> ELSE <<Eq>> \o val))
=============================================================================
