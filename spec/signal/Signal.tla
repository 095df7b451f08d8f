------------------------------- MODULE Signal -------------------------------
(* What signals do to a process that called sc_signal_init().  Signals raised    *)
(* by the main program are handled before the raise returns; a signal raised       *)
(* while a handler runs (depth > 0) is handled at once or when that handler is      *)
(* done, but before control is back in the main program.                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SHUT, FATAL, IGN
VARIABLES sfd, lfd, raised, alive, sent
svars == <<sfd, lfd, raised, alive, sent>>
\* sfd: 0 no descriptor, 1 writable, others: writing fails; lfd: 0 none, 1 good, 2 writing fails
SInit == sfd = 0 /\ lfd = 0 /\ raised = << >> /\ alive = TRUE /\ sent = 0
Shuts == SelectSeq(raised, LAMBDA s : s \in SHUT)
Fatals == {s \in FATAL : \E i \in 1..Len(raised) : raised[i] = s}
Others == {raised[i] : i \in 1..Len(raised)} \ (SHUT \union FATAL \union IGN)
Raise(s) == alive /\ raised' = Append(raised, s) /\ UNCHANGED <<sfd, lfd, alive, sent>>
\* the program goes on only if nothing fatal happened, and at most one shutdown signal
MayRun == Fatals = {} /\ Others = {} /\ (Len(Shuts) = 0 \/ (Len(Shuts) = 1 /\ sfd = 1))
Back(depth, errno) == /\ UNCHANGED <<sfd, lfd, raised, alive>> /\ errno
                      /\ (depth = 0 => MayRun) /\ sent' = IF depth = 0 THEN Len(Shuts) ELSE sent
Range(q) == {q[i] : i \in 1..Len(q)}
\* reports go to the log descriptor, otherwise to standard output (shutdown) or error (fatal)
Sinks(out, err, lg) ==
    LET ss == Range(Shuts) IN
    IF lfd = 0 THEN /\ ~lg.any
                    /\ Range(out.sigs) \subseteq ss /\ (ss = {} => ~out.any)
                    /\ Range(err.sigs) \subseteq Fatals /\ (Fatals = {} => ~err.any)
    ELSE /\ ~out.any /\ ~err.any
         /\ Range(lg.sigs) \subseteq ss \union Fatals /\ (ss \union Fatals = {} => ~lg.any)
         /\ (lfd = 2 => ~lg.any)
ShutLog(out, lg) == IF lfd = 0 THEN Range(out.sigs) ELSE Range(lg.sigs)
FatalLog(err, lg) == IF lfd = 0 THEN Range(err.sigs) ELSE Range(lg.sigs)
Ended(how, code, bytes, atexit, out, err, lg) ==
    /\ alive /\ alive' = FALSE /\ UNCHANGED <<sfd, lfd, raised, sent>>
    /\ Sinks(out, err, lg) /\ atexit = 0
    /\ CASE how = "done" -> /\ MayRun /\ bytes = Len(Shuts)
                            /\ (lfd # 2 => Range(Shuts) \subseteq ShutLog(out, lg))
         [] how = "exit" ->
              /\ Len(Shuts) > 0
              /\ CASE sfd = 0 -> code = 0 \/ (code = 1 /\ Len(Shuts) > 1)
                   [] sfd = 1 -> code = 1 /\ Len(Shuts) > 1
                   [] OTHER -> code = 1
              \* the second one may arrive before the first has sent its byte
              /\ bytes \in (IF sfd = 1 THEN {sent, 1} ELSE {0})
              /\ (lfd # 2 => ShutLog(out, lg) # {})
         [] how = "signal" ->
              \/ /\ code \in Fatals
                 /\ bytes \in (IF sfd = 1 /\ Len(Shuts) > 0 THEN {sent, 1} ELSE {0})
                 /\ (lfd # 2 => code \in FatalLog(err, lg) \/ Cardinality(Fatals) > 1)
              \/ code \in Others
=============================================================================
