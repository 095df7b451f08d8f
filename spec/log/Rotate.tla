------------------------------- MODULE Rotate -------------------------------
(* Rotation: per log file the numbered lines in the previous and in the current  *)
(* file and their sizes.  The lines present are always a contiguous run ending    *)
(* with the last one logged; the current file goes on to be the previous one once *)
(* it has about Limit bytes, and only then.                                        *)
EXTENDS Integers, Sequences
CONSTANTS Limit, Slack
VARIABLES view, n, on
rvars == <<view, n, on>>
\* 1 and 3 are the same current file with two previous names
Files == {1, 2, 3}
Cur(f) == IF f = 3 THEN 1 ELSE f
Peer(f) == IF f = 3 THEN 1 ELSE IF f = 1 THEN 3 ELSE 0
SameCur(v, w) == v.clo = w.clo /\ v.chi = w.chi /\ v.cs = w.cs
Put(vw, f, v) == [g \in Files |-> IF g = f THEN v ELSE IF g = Peer(f) THEN [vw[g] EXCEPT !.clo = v.clo, !.chi = v.chi, !.cs = v.cs] ELSE vw[g]]
Empty == [plo |-> 0, phi |-> 0, ps |-> -1, clo |-> 0, chi |-> 0, cs |-> -1, ok |-> TRUE]
RInit == view = [f \in Files |-> Empty] /\ n = [f \in Files |-> 0] /\ on = 0
Bytes(x) == IF x < 0 THEN 0 ELSE x
\* previous followed by current: a run of lines that ends with the last
Run(v, last, only) ==
    /\ v.ok
    /\ (v.chi # 0 => v.chi = last) /\ (only /\ v.chi = 0 /\ v.phi # 0 => v.phi = last)
    /\ (v.phi # 0 /\ v.clo # 0 => IF only THEN v.clo = v.phi + 1 ELSE v.clo > v.phi)
    /\ (only /\ last # 0 => v.chi # 0 \/ v.phi # 0)
\* (as long as its previous name was not changed)
Safe == \A f \in Files : Run(view[f], n[Cur(f)], Peer(f) = 0 \/ view[Peer(f)].ps = -1)
Bounded == \A f \in Files : view[f].cs <= Limit + Slack
\* without a rotation k lines of b bytes are appended
Appended(v, w, k, b, last) ==
    /\ w.plo = v.plo /\ w.phi = v.phi /\ w.ps = v.ps
    /\ w.clo = (IF v.clo = 0 THEN last - k + 1 ELSE v.clo) /\ w.chi = last /\ w.cs = Bytes(v.cs) + b
\* rotation at the last of k lines, which is in the old or in the new file
Rotated(v, w, k, b, lb, last) ==
    \/ /\ w.plo = (IF v.clo = 0 THEN last - k + 1 ELSE v.clo) /\ w.phi = last /\ w.ps = Bytes(v.cs) + b
       /\ w.clo = 0 /\ w.chi = 0 /\ w.cs \in {0, 1} /\ w.ps >= Limit - Slack
    \/ /\ (v.clo # 0 \/ k > 1) /\ w.plo = (IF v.clo = 0 THEN last - k + 1 ELSE v.clo) /\ w.phi = last - 1 /\ w.ps = Bytes(v.cs) + b - lb
       /\ w.clo = last /\ w.chi = last /\ w.cs \in {lb, lb + 1} /\ Bytes(v.cs) + b >= Limit - Slack
Others(f, w) == w = Put(view, f, IF f = 0 THEN view[1] ELSE w[f])
Log(f, k, b, lb, rc, w) ==
    /\ n' = [n EXCEPT ![Cur(f)] = @ + k] /\ rc = 0 /\ UNCHANGED on /\ view' = w /\ Others(f, w)
    /\ IF on = f THEN Appended(view[f], w[f], k, b, n[Cur(f)] + k) \/ Rotated(view[f], w[f], k, b, lb, n[Cur(f)] + k)
       ELSE w = view
\* the new current file could not be opened: an error, the old lines are in the previous file
LogFault(f, k, b, lb, rc, w) ==
    /\ n' = [n EXCEPT ![Cur(f)] = @ + k] /\ rc < 0 /\ on = f /\ on' = 0 /\ view' = w /\ Others(f, w)
    /\ w[f].plo = (IF view[f].clo = 0 THEN n[Cur(f)] + 1 ELSE view[f].clo) /\ w[f].phi = n[Cur(f)] + k
    /\ w[f].ps = Bytes(view[f].cs) + b /\ w[f].clo = 0
\* (re)opening keeps everything; a line end may be added
Open(f, rc, fault, w) ==
    /\ UNCHANGED n /\ view' = w /\ Others(f, w)
    /\ IF fault THEN rc < 0 /\ on' = 0 /\ w = view ELSE rc = 0 /\ on' = f
    /\ (f # 0 => w[f] \in {view[f], [view[f] EXCEPT !.cs = Bytes(@)], [view[f] EXCEPT !.cs = Bytes(@) + 1]})
=============================================================================
