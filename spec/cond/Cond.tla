-------------------------------- MODULE Cond --------------------------------
(* The condition object as its users see it: one slot. A signal fills the slot *)
(* (replacing what is pending), a wait empties it and returns its datum, and     *)
(* each takes effect at one instant between its call and its return.  Because    *)
(* that instant is not observable, the state is the set of all configurations    *)
(* consistent with the calls and returns so far.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Threads
VARIABLE S
None == -1
Idle == [k |-> "idle", v |-> 0, st |-> "idle", r |-> 0]
Start == {[slot |-> None, op |-> [t \in Threads |-> Idle]]}
CanLin(c, t) == c.op[t].st = "called" /\ (c.op[t].k = "wait" => c.slot # None)
Lin(c, t) == IF c.op[t].k = "signal"
             THEN [slot |-> c.op[t].v, op |-> [c.op EXCEPT ![t].st = "done"]]
             ELSE [slot |-> None, op |-> [c.op EXCEPT ![t].st = "done", ![t].r = c.slot]]
RECURSIVE Closure(_)
Closure(X) == LET Y == X \union {Lin(p[1], p[2]) : p \in {q \in X \X Threads : CanLin(q[1], q[2])}}
              IN  IF Y = X THEN X ELSE Closure(Y)
Call(t, k, v) == /\ \A c \in S : c.op[t].st = "idle"
                 /\ S' = Closure({[c EXCEPT !.op[t] = [k |-> k, v |-> v, st |-> "called", r |-> 0]] : c \in S})
Ret(t, k, v) == /\ S' = {[c EXCEPT !.op[t] = Idle] : c \in {x \in S : x.op[t].st = "done" /\ x.op[t].k = k /\ x.op[t].r = v}}
                /\ S' # {}
\* nothing can run any more: allowed only if every open call is a wait and nothing is pending
Stuck == \E c \in S : \A t \in Threads : c.op[t].st = "idle" \/ (c.op[t].st = "called" /\ ~CanLin(c, t))
Quiet == \E c \in S : \A t \in Threads : c.op[t].st = "idle"
=============================================================================
