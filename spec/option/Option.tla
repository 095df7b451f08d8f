------------------------------- MODULE Option -------------------------------
(* What an argument means for a table of options <<[l |-> letter, n |-> name]>> *)
(* (name << -1 >> : none, letter 0: none): the set of answers <<letter, value>> it may get.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
NoName == << -1 >>
NoValue == << -1 >>
Dash == 45
Eq == 61
Unknown == 63
At(q, i) == IF i \in DOMAIN q THEN q[i] ELSE 0
Drop(q, n) == SubSeq(q, n + 1, Len(q))
Eqs(q) == SelectInSeq(q, LAMBDA x : x = Eq)
\* <<name, value>> of the text after the dashes: split at the first '='
NameOf(q) == IF Eqs(q) = 0 THEN q ELSE SubSeq(q, 1, Eqs(q) - 1)
ValueOf(q) == IF Eqs(q) = 0 THEN << >> ELSE Drop(q, Eqs(q))
Long(a) == At(a, 1) = Dash /\ At(a, 2) = Dash
Short(a) == Len(a) > 1 /\ a[1] = Dash /\ At(a, 2) # Dash
None == {<<Unknown, NoValue>>, <<Unknown, << >>>>}
\* a letter followed by a blank inside one argument is outside the documented forms
Answers(tab, a) ==
    IF Long(a) THEN LET b == Drop(a, 2) m == {i \in DOMAIN tab : tab[i].n = NameOf(b)} IN
        IF m = {} THEN None ELSE {<<tab[i].l, ValueOf(b)>> : i \in m}
    ELSE IF Short(a) THEN LET c == At(a, 2) known == \E i \in DOMAIN tab : tab[i].l = c IN
        IF ~known THEN None
        ELSE IF Len(a) = 2 THEN {<<c, << >>>>}
        ELSE IF a[3] = Eq THEN {<<c, Drop(a, 3)>>}
        ELSE IF a[3] = 32 THEN None \union {<<c, Drop(a, 2)>>}
        ELSE None
    ELSE None
=============================================================================
