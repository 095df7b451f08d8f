----------------------------- MODULE RotateImpl -----------------------------
(* The file sink as the code works: a byte counter taken from the file when it is *)
(* opened, raised by every line; over Limit the file is renamed and a new one is   *)
(* begun.  Every step is a step of Rotate.  Every sequence of operations is         *)
(* printed as a test (sizes in twentieths of the limit).                             *)
EXTENDS Rotate, TLC
CONSTANTS MaxOps, Sizes
VARIABLES counter, hist, m
vars == <<rvars, counter, hist, m>>
Init == RInit /\ counter = 0 /\ hist = "" /\ m = 0
Say(s) == m < MaxOps /\ m' = m + 1 /\ hist' = hist \o s \o ";"
New(v, s, last) == [v EXCEPT !.clo = IF @ = 0 THEN last ELSE @, !.chi = last, !.cs = Bytes(@) + s]
Moved(v) == [v EXCEPT !.plo = v.clo, !.phi = v.chi, !.ps = v.cs, !.clo = 0, !.chi = 0, !.cs = -1]
Write(s, fault) ==
    /\ on # 0 /\ Say((IF fault THEN "F" ELSE "L") \o ToString(s))
    /\ LET f == on
           v == New(view[f], s, n[Cur(f)] + 1)
           full == counter + s > Limit
           w == Put(view, f, IF ~full THEN v ELSE IF fault THEN Moved(v) ELSE [Moved(v) EXCEPT !.cs = 0])
       IN  /\ (fault => full)
           /\ counter' = IF full THEN 0 ELSE counter + s
           /\ view' = w /\ n' = [n EXCEPT ![Cur(f)] = @ + 1] /\ on' = IF full /\ fault THEN 0 ELSE on
           /\ Assert(IF full /\ fault THEN LogFault(f, 1, s, s, -1, w) ELSE Log(f, 1, s, s, 0, w), "not a step of Rotate")
OpenFile(f) ==
    /\ Say("O" \o ToString(f))
    /\ LET w == IF f = 0 THEN view ELSE Put(view, f, [view[f] EXCEPT !.cs = Bytes(@) + 1])
       IN counter' = (IF f = 0 THEN counter ELSE w[f].cs) /\ Open(f, 0, FALSE, w)
Restart == Say("R") /\ on' = 0 /\ UNCHANGED <<view, n, counter>>
NoLog == on = 0 /\ Say("N") /\ UNCHANGED <<rvars, counter>>
Next == \/ \E s \in Sizes : Write(s, FALSE) \/ Write(s, TRUE)
        \/ \E f \in 0..3 : OpenFile(f)
        \/ Restart \/ NoLog
Spec == Init /\ [][Next]_vars
Emit == PrintT("T|" \o hist')
Counted == on # 0 => counter = Bytes(view[on].cs)
=============================================================================
