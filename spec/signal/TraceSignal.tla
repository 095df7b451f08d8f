---------------------------- MODULE TraceSignal ----------------------------
EXTENDS Signal, TraceBase
TInit == SInit /\ TraceStart
Shut == {2, 15}
Fat == {4, 6, 7, 8, 11}
Ignored == {1, 13}
TNext ==
    \/ IsEvent("begin") /\ sfd' = ev.sfd /\ lfd' = ev.lfd /\ UNCHANGED <<raised, alive, sent>>
    \/ IsEvent("init") /\ (IF ev.failed THEN ev.rc = -1 ELSE ev.rc = 0) /\ ev.clear /\ ev.st = 0 /\ UNCHANGED svars
    \/ IsEvent("raise") /\ Raise(ev.s)
    \/ IsEvent("back") /\ Back(ev.d, ev.errno)
    \/ IsEvent("ended") /\ Ended(ev.how, ev.code, ev.bytes, ev.atexit, ev.out, ev.err, ev.log)
    \/ IsEnd /\ UNCHANGED svars
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
