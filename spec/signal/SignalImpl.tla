----------------------------- MODULE SignalImpl -----------------------------
(* The handlers step by step, signals arriving at every step (up to MaxSig).       *)
(* Both shutdown signals are blocked while the shutdown handler runs (Masked),      *)
(* otherwise two of them can slip in between the test and the setting of the flag.   *)
(* What the process does is what Signal allows; every sequence of main-level         *)
(* signals is printed as a test.                                                      *)
EXTENDS Signal, TLC
CONSTANTS MaxSig, Masked, SfdKinds
VARIABLES stack, pend, will, bytes, so, se, end, main, top
vars == <<svars, stack, pend, will, bytes, so, se, end, main, top>>
Start == /\ sfd \in SfdKinds /\ lfd = 0 /\ raised = << >> /\ alive = TRUE /\ sent = 0
         /\ stack = << >> /\ pend = {} /\ will = FALSE /\ bytes = 0 /\ so = {} /\ se = {} /\ end = <<"run", 0>> /\ main = << >> /\ top = TRUE
Blocked(s) == Masked /\ s \in SHUT /\ \E i \in 1..Len(stack) : stack[i].s \in SHUT
Frame(s) == [s |-> s, pc |-> "log"]
Running == end[1] = "run"
Arrive(s) ==
    /\ Running /\ Len(raised) < MaxSig /\ raised' = Append(raised, s) /\ UNCHANGED <<sfd, lfd, alive, will, bytes, so, se, end>>
    /\ sent' = sent
    /\ main' = (IF stack = << >> THEN Append(main, s) ELSE main) /\ top' = (top /\ stack = << >>)
    /\ IF s \in IGN THEN UNCHANGED <<stack, pend>>
       ELSE IF Blocked(s) THEN pend' = pend \union {s} /\ UNCHANGED stack
       ELSE stack' = Append(stack, Frame(s)) /\ UNCHANGED pend
Top == stack[Len(stack)]
Go(k) == stack' = [stack EXCEPT ![Len(stack)].pc = k]
Pop == LET r == SubSeq(stack, 1, Len(stack) - 1) IN
       IF pend # {} /\ ~\E i \in 1..Len(r) : r[i].s \in SHUT
       THEN LET s == CHOOSE x \in pend : TRUE IN stack' = Append(r, Frame(s)) /\ pend' = pend \ {s}
       ELSE stack' = r /\ UNCHANGED pend
Same == UNCHANGED <<sfd, lfd, raised, alive, main, top>>
Exit(c) == end' = <<"exit", c>> /\ UNCHANGED <<stack, pend, will, bytes>>
ShutStep ==
    /\ Running /\ stack # << >> /\ Top.s \in SHUT /\ Same
    /\ CASE Top.pc = "log" -> so' = so \union {Top.s} /\ Go("test") /\ UNCHANGED <<pend, will, bytes, end, se, sent>>
         [] Top.pc = "test" -> (IF will THEN Exit(1) ELSE Go("set") /\ UNCHANGED <<pend, will, bytes, end>>) /\ UNCHANGED <<so, se, sent>>
         [] Top.pc = "set" -> will' = TRUE /\ Go("send") /\ UNCHANGED <<pend, bytes, end, so, se, sent>>
         [] OTHER -> /\ UNCHANGED <<so, se>>
                     /\ IF sfd = 0 THEN Exit(0) /\ UNCHANGED sent ELSE IF sfd # 1 THEN Exit(1) /\ UNCHANGED sent
                        ELSE bytes' = bytes + 1 /\ Pop /\ UNCHANGED <<will, end>> /\ sent' = (IF Len(stack) = 1 /\ pend = {} THEN bytes + 1 ELSE sent)
FatalStep ==
    /\ Running /\ stack # << >> /\ Top.s \in FATAL /\ Same
    /\ CASE Top.pc = "log" -> se' = se \union {Top.s} /\ Go("die") /\ UNCHANGED <<pend, will, bytes, end, so, sent>>
         [] OTHER -> end' = <<"signal", Top.s>> /\ UNCHANGED <<stack, pend, will, bytes, so, se, sent>>
Finish == Running /\ stack = << >> /\ end' = <<"done", 33>> /\ UNCHANGED <<svars, stack, pend, will, bytes, so, se, main, top>>
Next == (\E s \in SHUT \union FATAL \union IGN : Arrive(s)) \/ ShutStep \/ FatalStep \/ Finish
Spec == Start /\ [][Next]_vars
Ch(S) == [any |-> S # {}, sigs |-> LET f[T \in SUBSET S] == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o f[T \ {x}] IN f[S]]
\* the state before the end, with the outcome
Right == ~Running => LET how == end[1] IN
    /\ Sinks(Ch(so), Ch(se), Ch({}))
    /\ CASE how = "done" -> MayRun /\ bytes = Len(Shuts)
         [] how = "exit" -> /\ Len(Shuts) > 0
                            /\ CASE sfd = 0 -> end[2] = 0 \/ (end[2] = 1 /\ Len(Shuts) > 1)
                                 [] sfd = 1 -> end[2] = 1 /\ Len(Shuts) > 1
                                 [] OTHER -> end[2] = 1
                            /\ bytes = (IF sfd = 1 THEN 1 ELSE 0)
         [] OTHER -> end[2] \in Fatals /\ bytes \in {0, 1}
AtMain == Running /\ stack = << >> => MayRun
RECURSIVE Show(_)
Show(q) == IF q = << >> THEN "" ELSE ToString(Head(q)) \o " " \o Show(Tail(q))
Emit == (end' # end /\ top) => PrintT("T|" \o ToString(sfd) \o " " \o Show(main))
=============================================================================
