------------------------------ MODULE CondImpl ------------------------------
(* The object as the code builds it: a mutex, a condition variable with         *)
(* arbitrary spurious wake-ups, the flag done and the datum; one step per        *)
(* memory access or pthread call.  Each thread repeats waits or signals.  The     *)
(* history variable cond is the set of configurations of Cond that agree with     *)
(* the calls and returns so far: never empty, and a state in which only waiters    *)
(* are left asleep has nothing pending.                                            *)
EXTENDS Cond, TLC
CONSTANTS Waiters, Signalers, Rounds
VARIABLES pc, mtx, woken, done, data, got, n
vars == <<S, pc, mtx, woken, done, data, got, n>>
Nobody == -1
Init == /\ S = Start /\ pc = [t \in Threads |-> "idle"] /\ mtx = Nobody /\ woken = {}
        /\ done = FALSE /\ data = 0 /\ got = [t \in Threads |-> 0] /\ n = [t \in Threads |-> 0]
To(t, k) == pc' = [pc EXCEPT ![t] = k]
Datum(t) == 10 * t + n[t]
\* sleeping threads are at "asleep" and not in woken
Asleep == {t \in Threads : pc[t] = "asleep" /\ t \notin woken}
Acquire(t, from, to) == pc[t] = from /\ mtx = Nobody /\ mtx' = t /\ To(t, to)
CallStep(t) == /\ pc[t] = "idle" /\ n[t] < Rounds /\ n' = [n EXCEPT ![t] = @ + 1]
               /\ IF t \in Waiters THEN Call(t, "wait", 0) ELSE Call(t, "signal", 10 * t + n[t] + 1)
               /\ To(t, "lock") /\ UNCHANGED <<mtx, woken, done, data, got>>
Lock(t) == Acquire(t, "lock", IF t \in Waiters THEN "test" ELSE "data") /\ UNCHANGED <<S, woken, done, data, got, n>>
\* ---- signal
SData(t) == t \in Signalers /\ pc[t] = "data" /\ data' = Datum(t) /\ To(t, "done") /\ UNCHANGED <<S, mtx, woken, done, got, n>>
SDone(t) == pc[t] = "done" /\ done' = TRUE /\ To(t, "wake") /\ UNCHANGED <<S, mtx, woken, data, got, n>>
SWake(t) == /\ pc[t] = "wake" /\ To(t, "unlock")
            /\ IF Asleep = {} THEN woken' = woken ELSE \E w \in Asleep : woken' = woken \union {w}
            /\ UNCHANGED <<S, mtx, done, data, got, n>>
\* ---- wait
WTest(t) == pc[t] = "test" /\ (IF done THEN To(t, "take") /\ UNCHANGED <<mtx, woken>>
                               ELSE To(t, "asleep") /\ mtx' = Nobody /\ woken' = woken \ {t})
            /\ UNCHANGED <<S, done, data, got, n>>
Spurious(t) == t \in Asleep /\ woken' = woken \union {t} /\ UNCHANGED <<S, pc, mtx, done, data, got, n>>
WResume(t) == pc[t] = "asleep" /\ t \in woken /\ mtx = Nobody /\ mtx' = t /\ woken' = woken \ {t} /\ To(t, "test")
              /\ UNCHANGED <<S, done, data, got, n>>
WTake(t) == pc[t] = "take" /\ got' = [got EXCEPT ![t] = data] /\ To(t, "clear") /\ UNCHANGED <<S, mtx, woken, done, data, n>>
WClear(t) == pc[t] = "clear" /\ data' = 0 /\ To(t, "clear2") /\ UNCHANGED <<S, mtx, woken, done, got, n>>
WClear2(t) == pc[t] = "clear2" /\ done' = FALSE /\ To(t, "unlock") /\ UNCHANGED <<S, mtx, woken, data, got, n>>
Unlock(t) == pc[t] = "unlock" /\ mtx' = Nobody /\ To(t, "ret") /\ UNCHANGED <<S, woken, done, data, got, n>>
RetStep(t) == pc[t] = "ret" /\ To(t, "idle")
              /\ S' = (LET r == IF t \in Waiters THEN got[t] ELSE 0 IN
                       {[c EXCEPT !.op[t] = Idle] : c \in {x \in S : x.op[t].st = "done" /\ x.op[t].r = r}})
              /\ UNCHANGED <<mtx, woken, done, data, got, n>>
Step(t) == Lock(t) \/ SData(t) \/ SDone(t) \/ SWake(t) \/ WTest(t) \/ WResume(t) \/ WTake(t) \/ WClear(t) \/ WClear2(t)
           \/ Unlock(t) \/ RetStep(t) \/ CallStep(t)
Next == \E t \in Threads : Step(t) \/ Spurious(t)
Finished == \A t \in Threads : (pc[t] = "idle" /\ n[t] = Rounds) \/ t \in Asleep
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t) /\ pc[t] # "asleep") /\ SF_vars(Lock(t)) /\ SF_vars(WResume(t))
Linear == S # {}
NoLostWakeup == Finished => Stuck
Exclusive == Cardinality({t \in Threads : pc[t] \in {"test", "take", "clear", "clear2", "data", "done", "wake", "unlock"}}) <= 1
\* a pending signal does not stay pending while someone is waiting
Pending == \E c \in S : c.slot # None
Delivered == \A w \in Waiters : (done /\ pc[w] = "asleep") ~> (~done \/ pc[w] # "asleep")
Progress == \A t \in Signalers : pc[t] = "lock" ~> pc[t] = "idle"
=============================================================================
