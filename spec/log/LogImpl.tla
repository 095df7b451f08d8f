------------------------------ MODULE LogImpl ------------------------------
(* The logger as the code works: one mutex, the level read outside it (Atomic)  *)
(* or inside, and every sink written in two pieces, header and text.  The         *)
(* history variable S (see Log) is never empty; when all is quiet the pieces pair *)
(* up and the sinks hold what some configuration of S says.  The start state and   *)
(* every program of MaxOps operations per thread are chosen freely; complete       *)
(* programs are printed as tests.                                                   *)
EXTENDS Log, TLC
CONSTANTS MaxOps, Atomic, Ops
VARIABLES prog, pc, mtx, cur, out, err, cbs, fl, lvl, so, cb, file, rc
vars == <<S, prog, pc, mtx, cur, out, err, cbs, fl, lvl, so, cb, file, rc>>
None == -1
K(o) == CASE o \in {"d", "i", "w", "e"} -> "log" [] o \in {"D", "I", "W", "E", "O", "X"} -> "level"
          [] o \in {"0", "1"} -> "stdout" [] o \in {"c", "C", "k"} -> "cb" [] OTHER -> "file"
A(o) == CASE o \in {"d", "D", "0", "c", "f"} -> 0 [] o \in {"i", "I", "1", "C", "g"} -> 1 [] o \in {"w", "W", "k", "h"} -> 2
          [] o \in {"e", "E"} -> 3 [] o = "O" -> 4 [] OTHER -> -1
Init == /\ S = {Fresh} /\ prog = [t \in Threads |-> << >>] /\ pc = [t \in Threads |-> "idle"] /\ mtx = None /\ cur = [t \in Threads |-> "i"]
        /\ out = << >> /\ err = << >> /\ cbs = << >> /\ fl = [f \in 1..3 |-> << >>] /\ lvl = 1 /\ so = TRUE /\ cb = 0 /\ file = 0
        /\ rc = [t \in Threads |-> 0]
Id(t) == 10 * t + Len(prog[t])
To(t, k) == pc' = [pc EXCEPT ![t] = k]
sinks == <<out, err, cbs, fl>>
conf == <<lvl, so, cb, file>>
DoCall(t) == \E o \in Ops :
    /\ pc[t] = "idle" /\ Len(prog[t]) < MaxOps
    /\ prog' = [prog EXCEPT ![t] = Append(@, o)] /\ cur' = [cur EXCEPT ![t] = o] /\ rc' = [rc EXCEPT ![t] = 0]
    /\ Call(t, K(o), A(o), 10 * t + Len(prog[t]) + 1)
    /\ To(t, IF K(o) = "log" /\ Atomic THEN "check" ELSE IF K(o) = "level" /\ (Atomic \/ A(o) < 0) THEN "set" ELSE "lock")
    /\ UNCHANGED <<mtx, sinks, conf>>
Check(t) == /\ pc[t] = "check" /\ To(t, IF A(cur[t]) < lvl THEN (IF Atomic THEN "ret" ELSE "unlock") ELSE IF Atomic THEN "lock2" ELSE "o1")
            /\ UNCHANGED <<S, prog, mtx, cur, sinks, conf, rc>>
Lock(t) == /\ pc[t] \in {"lock", "lock2"} /\ mtx = None /\ mtx' = t
           /\ To(t, IF pc[t] = "lock2" THEN "o1" ELSE IF K(cur[t]) = "log" THEN "check" ELSE "set")
           /\ UNCHANGED <<S, prog, cur, sinks, conf, rc>>
Set(t) == /\ pc[t] = "set" /\ LET o == cur[t] IN
             /\ lvl' = IF K(o) = "level" /\ A(o) >= 0 THEN A(o) ELSE lvl
             /\ so' = IF K(o) = "stdout" THEN A(o) = 1 ELSE so
             /\ cb' = IF K(o) = "cb" THEN A(o) ELSE cb
             /\ file' = IF K(o) = "file" THEN A(o) ELSE file
             /\ rc' = [rc EXCEPT ![t] = IF A(o) < 0 THEN -1 ELSE 0]
          /\ To(t, IF mtx = t THEN "unlock" ELSE "ret") /\ UNCHANGED <<S, prog, mtx, cur, sinks>>
\* the pieces of a message
Put(t, from, to, piece) ==
    /\ pc[t] = from /\ To(t, to)
    /\ LET std == from \in {"o1", "o2"} /\ so
           fil == from \in {"f1", "f2"} /\ file # 0
       IN  /\ out' = IF std /\ A(cur[t]) # Error THEN Append(out, <<Id(t), piece>>) ELSE out
           /\ err' = IF std /\ A(cur[t]) = Error THEN Append(err, <<Id(t), piece>>) ELSE err
           /\ fl' = IF fil THEN [fl EXCEPT ![file] = Append(@, <<Id(t), piece>>)] ELSE fl
    /\ UNCHANGED <<S, prog, mtx, cur, cbs, conf, rc>>
Cb(t) == /\ pc[t] = "cb" /\ To(t, "unlock") /\ cbs' = IF cb # 0 THEN Append(cbs, Id(t)) ELSE cbs
         /\ rc' = [rc EXCEPT ![t] = IF cb = 2 THEN -1 ELSE 0] /\ UNCHANGED <<S, prog, mtx, cur, out, err, fl, conf>>
Unlock(t) == pc[t] = "unlock" /\ mtx' = None /\ To(t, "ret") /\ UNCHANGED <<S, prog, cur, sinks, conf, rc>>
DoRet(t) == /\ pc[t] = "ret" /\ To(t, "idle") /\ S' = {[c EXCEPT !.op[t] = Idle] : c \in {x \in S : x.op[t].st = "done" /\ x.op[t].r = rc[t]}}
            /\ UNCHANGED <<prog, mtx, cur, sinks, conf, rc>>
Next == \E t \in Threads : DoCall(t) \/ Check(t) \/ Lock(t) \/ Set(t) \/ Put(t, "o1", "o2", 1) \/ Put(t, "o2", "f1", 2)
                           \/ Put(t, "f1", "f2", 1) \/ Put(t, "f2", "cb", 2) \/ Cb(t) \/ Unlock(t) \/ DoRet(t)
Spec == Init /\ [][Next]_vars
Linear == S # {}
Exclusive == Cardinality({t \in Threads : pc[t] \in {"o1", "o2", "f1", "f2", "cb", "unlock"}}) <= 1
Paired(q) == Len(q) % 2 = 0 /\ \A i \in 1..(Len(q) \div 2) : q[2 * i - 1][2] = 1 /\ q[2 * i][2] = 2 /\ q[2 * i - 1][1] = q[2 * i][1]
Ids(q) == [i \in 1..(Len(q) \div 2) |-> q[2 * i][1]]
Quiet == \A t \in Threads : pc[t] = "idle"
Agree == Quiet => /\ Paired(out) /\ Paired(err) /\ \A f \in 1..3 : Paired(fl[f])
                  /\ Sinks(Ids(out), Ids(err), cbs, [f \in 1..3 |-> Ids(fl[f])], TRUE)
\* tests
RECURSIVE Join(_)
Join(q) == IF q = << >> THEN "" ELSE Head(q) \o Join(Tail(q))
Emit == (\A t \in Threads : Len(prog'[t]) = MaxOps /\ pc'[t] = "idle") =>
            PrintT("T|" \o (LET f[T \in SUBSET Threads] == IF T = {} THEN "" ELSE LET t == CHOOSE x \in T : \A y \in T : x <= y IN Join(prog'[t]) \o " " \o f[T \ {t}] IN f[Threads]))
=============================================================================
