--------------------------------- MODULE Uri ---------------------------------
(* The generic URI syntax (RFC 3986, appendix B) as a function from the bytes   *)
(* of a string to its parts, by successive splitting, outermost separator       *)
(* first: fragment, query, scheme, authority and path, userinfo, host and port. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
At(q, i) == IF i \in DOMAIN q THEN q[i] ELSE 0
First(q, S) == SelectInSeq(q, LAMBDA x : x \in S)          \* 0 if there is none
Upto(q, i) == IF i = 0 THEN q ELSE SubSeq(q, 1, i - 1)     \* before position i
From(q, i) == IF i = 0 THEN << >> ELSE SubSeq(q, i + 1, Len(q))
Bad == [ok |-> FALSE]
Digit == 48..57
RECURSIVE Strip0(_)
Strip0(q) == IF Len(q) > 1 /\ q[1] = 48 THEN Strip0(Tail(q)) ELSE q
Value(q) == FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, q)
PortOk(q) == (\A i \in DOMAIN q : q[i] \in Digit) /\ LET z == Strip0(q) IN Len(z) <= 5 /\ Value(z) <= 65535
\* host and port of the text after the userinfo
HostPort(q) ==
    LET close == First(q, {93})
        hl == IF At(q, 1) = 91 THEN close ELSE LET c == First(q, {58}) IN IF c = 0 THEN Len(q) ELSE c - 1
        host == SubSeq(q, 1, hl)
        rest == SubSeq(q, hl + 1, Len(q))
    IN  IF At(q, 1) = 91 /\ close = 0 THEN Bad
        ELSE IF rest = << >> THEN [ok |-> TRUE, host |-> host, port |-> << >>, colon |-> FALSE]
        ELSE IF rest[1] # 58 \/ ~PortOk(Tail(rest)) THEN Bad
        ELSE [ok |-> TRUE, host |-> host, port |-> Tail(rest), colon |-> TRUE]
Split(t) ==
    LET f == First(t, {35}) b1 == Upto(t, f)
        q == First(b1, {63}) b2 == Upto(b1, q)
        c == First(b2, {58}) s == First(b2, {47})
        scheme == Upto(b2, c) hier == From(b2, c)
        net == At(hier, 1) = 47 /\ At(hier, 2) = 47
        a0 == IF net THEN SubSeq(hier, 3, Len(hier)) ELSE << >>
        slash == First(a0, {47})
        auth == Upto(a0, slash)
        path == IF net THEN SubSeq(a0, Len(auth) + 1, Len(a0)) ELSE hier
        at == First(auth, {64})
        hp == HostPort(IF at = 0 THEN auth ELSE From(auth, at))
    IN  IF c < 2 \/ (s # 0 /\ s < c) THEN Bad
        ELSE IF ~hp.ok THEN Bad
        ELSE [ok |-> TRUE, empty_port |-> hp.colon /\ hp.port = << >>,
              parts |-> <<scheme, IF at = 0 THEN << >> ELSE Upto(auth, at), hp.host, hp.port, path, From(b1, q), From(t, f)>>,
              whole |-> scheme \o <<58>> \o (IF net THEN <<47, 47>> ELSE << >>)
                        \o (IF at = 0 THEN << >> ELSE Upto(auth, at) \o <<64>>) \o hp.host
                        \o (IF hp.colon THEN <<58>> \o hp.port ELSE << >>) \o path
                        \o (IF q = 0 THEN << >> ELSE <<63>> \o From(b1, q)) \o (IF f = 0 THEN << >> ELSE <<35>> \o From(t, f))]
=============================================================================
