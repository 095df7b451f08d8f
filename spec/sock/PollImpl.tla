------------------------------ MODULE PollImpl ------------------------------
(* The interest bookkeeping as the code works: the recorded mask (op), the kernel's *)
(* registration, the recorded mask written before the kernel call and put back when *)
(* it is refused; between the kernel call and the return another thread that got an  *)
(* event may change the interest of the same descriptor.  One descriptor.             *)
EXTENDS Poll, TLC
CONSTANT MaxOps
VARIABLES op, reg, hist, m
vars == <<pvars, op, reg, hist, m>>
IInit == fd = [i \in Fds |-> [Closed EXCEPT !.open = TRUE]] /\ alive = {1} /\ op = 0 /\ reg = 0 /\ hist = "" /\ m = 0
\* kernel: ADD needs absence, MOD and DEL presence
Ctl(o, r, new) ==
    IF o = 0 THEN (IF r = 0 THEN new ELSE -1) ELSE (IF r = 0 THEN -1 ELSE new)
\* one call: <<op, reg, rc>>
Call(o, r, new, refuse) ==
    IF new = o THEN <<o, r, 0>>
    ELSE IF refuse \/ Ctl(o, r, new) = -1 THEN <<o, r, -1>>
    ELSE <<new, Ctl(o, r, new), 0>>
NewMask(k, o, e) == IF k = "A" THEN Added(o, e) ELSE Deleted(o, e)
Step(k, e, refuse) ==
    LET c == Call(op, reg, NewMask(k, op, e), refuse) IN
    /\ op' = c[1] /\ reg' = c[2]
    /\ Change(1, 1, NewMask(k, fd[1].mask, e), 0, refuse, c[3])
\* the outer call's kernel call works, then the nested call runs completely
Nested(k, e, k2, e2) ==
    LET n == NewMask(k, op, e)
        c == Call(op, reg, n, FALSE)
        d == Call(c[1], c[2], NewMask(k2, c[1], e2), FALSE)
        a == NewMask(k, fd[1].mask, e)
    IN  /\ n # op /\ n # 0 /\ c[3] = 0 /\ d[3] = 0
        /\ op' = d[1] /\ reg' = d[2] /\ UNCHANGED alive
        /\ fd' = [fd EXCEPT ![1].mask = NewMask(k2, a, e2), ![1].armed = TRUE, ![1].may = TRUE, ![1].poll = IF NewMask(k2, a, e2) = 0 THEN 0 ELSE 1]
Say(s) == m < MaxOps /\ m' = m + 1 /\ hist' = hist \o s \o ";"
Next == \E k \in {"A", "D"}, e \in 1..7 :
    \/ \E refuse \in BOOLEAN : Step(k, e, refuse) /\ Say(k \o ToString(e) \o (IF refuse THEN "!" ELSE ""))
    \/ \E k2 \in {"A", "D"}, e2 \in 1..7 : Nested(k, e, k2, e2) /\ Say(k \o ToString(e) \o k2 \o ToString(e2))
Spec == IInit /\ [][Next]_vars
V == <<fd[1].mask, op, reg, m>>
Emit == PrintT("T|" \o hist')
Agrees == op = reg /\ fd[1].mask = reg
=============================================================================
