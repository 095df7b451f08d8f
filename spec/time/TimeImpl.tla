------------------------------ MODULE TimeImpl ------------------------------
(* The sleep loop over a system call that may stop early any number of times   *)
(* (up to MaxInt) or fail.  Time is scaled: ten "milliseconds" make a "second". *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxMs, MaxInt, Span
VARIABLES ms, t, rem, slept, rc, n, script, pc
vars == <<ms, t, rem, slept, rc, n, script, pc>>
\* a span is <<seconds, rest>>
Val(x) == x[1] * 10 + x[2]
Mk(v) == <<v \div 10, v % 10>>
Init == ms \in 0..MaxMs /\ rem = Mk(ms) /\ t = <<0, 0>> /\ slept = 0 /\ rc = 0 /\ n = 0 /\ script = << >> /\ pc = "copy"
Copy == pc = "copy" /\ t' = rem /\ pc' = "call" /\ UNCHANGED <<ms, rem, slept, rc, n, script>>
Done == pc = "call" /\ slept' = slept + Val(t) /\ rc' = 0 /\ pc' = "done" /\ script' = Append(script, "o") /\ UNCHANGED <<ms, t, rem, n>>
Interrupted == /\ pc = "call" /\ n < MaxInt /\ \E s \in {x \in 0..Val(t) : x % Span = 0 \/ x = Val(t)} :
                  slept' = slept + s /\ rem' = Mk(Val(t) - s) /\ script' = Append(script, "i" \o ToString(s))
               /\ n' = n + 1 /\ rc' = -1 /\ pc' = "copy" /\ UNCHANGED <<ms, t>>
Fails == pc = "call" /\ rc' = -1 /\ pc' = "fail" /\ script' = Append(script, "e") /\ UNCHANGED <<ms, t, rem, slept, n>>
RECURSIVE Join(_)
Join(q) == IF q = << >> THEN "" ELSE " " \o Head(q) \o Join(Tail(q))
Say == pc \in {"done", "fail"} /\ PrintT("T|" \o ToString(ms) \o Join(script)) /\ pc' = "said" /\ UNCHANGED <<ms, t, rem, slept, rc, n, script>>
Next == Copy \/ Done \/ Interrupted \/ Fails \/ Say
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == pc = "done" => rc = 0 /\ slept = ms
Failed == pc = "fail" => rc < 0
Whole == pc \in {"copy", "call"} => slept + Val(IF pc = "copy" THEN rem ELSE t) = ms
Ends == <>(pc = "said")
=============================================================================
