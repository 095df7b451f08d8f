----------------------------- MODULE ThreadImpl -----------------------------
(* Thread objects as the code builds them on pthread calls that may fail: the   *)
(* identifier 0 means "nothing to join".  Checked: never a join of an identifier *)
(* that is not a started, unjoined thread; refinement of Thread.  Every sequence  *)
(* of operations and failures is printed as a test.                               *)
EXTENDS Thread, TLC
CONSTANTS MaxOps, Used
VARIABLES id, joinable, pend, hist, n
mvars == <<vars, id, joinable, pend, hist, n>>
Init == Start0 /\ id = [o \in Objs |-> 0] /\ joinable = {} /\ pend = 0 /\ hist = "" /\ n = 0
Say(c, o) == hist' = hist \o c \o ToString(o) /\ n < MaxOps
Next1(o) == n + 1
StartOp(o) == /\ pend = 0 /\ id[o] = 0 /\ Say("s", o) /\ n' = n + 1
              /\ StartCall(o, n + 1) /\ pend' = o + 1 /\ UNCHANGED <<id, joinable>>
CreateOk(o) == /\ pend = o + 1 /\ id' = [id EXCEPT ![o] = n] /\ joinable' = joinable \union {n} /\ pend' = 0
               /\ StartRet(o, n, 0, TRUE, FALSE) /\ UNCHANGED <<hist, n>>
StartFail(o, c) == /\ pend = 0 /\ id[o] = 0 /\ Say(c, o) /\ n' = n + 1 /\ UNCHANGED <<id, joinable, pend>>
                   /\ run' = [run EXCEPT ![n + 1].st = "failed"] /\ UNCHANGED <<obj, own>>
Body(k) == \/ Begin(k, k) /\ k \in joinable /\ UNCHANGED <<id, joinable, pend, hist, n>>
           \/ Finish(k, 100 + k) /\ UNCHANGED <<id, joinable, pend, hist, n>>
JoinOp(o, c, fail) ==
    /\ pend = 0 /\ Say(c, o) /\ n' = n + 1 /\ pend' = 0
    /\ IF id[o] = 0 THEN ~fail /\ UNCHANGED <<id, joinable>> /\ JoinRet(o, 0, 0, TRUE, FALSE)
       ELSE IF fail THEN id' = [id EXCEPT ![o] = 0] /\ joinable' = joinable \ {id[o]} /\ JoinRet(o, -1, 0, TRUE, TRUE)
       ELSE /\ Assert(id[o] \in joinable, "joined a thread that is not there")
            /\ run[id[o]].st = "finished" /\ id' = [id EXCEPT ![o] = 0] /\ joinable' = joinable \ {id[o]}
            /\ JoinRet(o, 0, run[id[o]].ret, TRUE, FALSE)
Next == \/ \E o \in Used : StartOp(o) \/ CreateOk(o) \/ StartFail(o, "a") \/ StartFail(o, "c")
                           \/ JoinOp(o, "j", FALSE) \/ JoinOp(o, "J", TRUE) \/ JoinOp(o, "t", FALSE) \/ JoinOp(o, "T", TRUE)
        \/ \E k \in 1..MaxOps : Body(k)
Spec == Init /\ [][Next]_mvars
Match == \A o \in Objs : pend # o + 1 => id[o] = obj[o]
Emit == n' = n \/ PrintT("T|" \o hist')
=============================================================================
