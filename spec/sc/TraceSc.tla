------------------------------- MODULE TraceSc -------------------------------
EXTENDS Sc, TraceBase
VARIABLE st
None == [i |-> 0, j |-> 0, s |-> << >>]
Init == TraceStart /\ st = None
Size == IsEvent("size") /\ ev.same /\ ev.v \in Sizes(ev.s) /\ UNCHANGED st
Human == /\ IsEvent("human") /\ UNCHANGED st
         /\ \E t \in Texts(ev.v) : IF ev.ret = "buf" THEN ev.text = t /\ Len(t) < ev.len /\ ev.term
                                   ELSE ev.ret = "null" /\ Len(t) >= ev.len
Pow2 == /\ IsEvent("pow2") /\ UNCHANGED st
        /\ ev.is = IsPow2(ev.v)
        /\ (Pow2Of(ev.v) <= 64 => Ones(ev.to) = {Pow2Of(ev.v)})
Seed == IsEvent("seed") /\ st' = Ksa(256, ev.s)
Rd == /\ IsEvent("read")
      /\ LET x == Read(256, st, ev.n) IN ev.b = x[2] /\ st' = x[1]
Next == (IsEvent("begin") /\ st' = None) \/ Size \/ Human \/ Pow2 \/ Seed \/ Rd \/ (IsEnd /\ UNCHANGED st)
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
