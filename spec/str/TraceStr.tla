------------------------------ MODULE TraceStr ------------------------------
EXTENDS Str, TraceBase
TInit == s = [i \in 0..3 |-> Null] /\ TraceStart /\ max = ev.max
Op(name) == ev.op = name
\* every recorded slot, read back through the API: length, bytes and terminator
Seen == \A i \in 0..3 : ev.st[i + 1] = s'[i] /\ ev.ln[i + 1] = (IF s'[i] = Null THEN -1 ELSE Len(s'[i]))
F == Format(ev.kind, ev.x, ev.n, ev.y)
TNext ==
    \/ IsEvent("longtok") /\ ev.out = ev.in /\ ev.eq /\ ev.whole /\ UNCHANGED vars /\ Seen
    \/ IsEvent("begin") /\ UNCHANGED vars
    \/ IsEvent("create") /\ Create(ev.i, ev.x, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("createlen") /\ CreateRaw(ev.i, ev.x, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("fmt") /\ CreateRaw(ev.i, F, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("dup") /\ CreateRaw(ev.i, s[ev.j], ev.ok, ev.failed) /\ Seen
    \/ IsEvent("set") /\ Set(ev.i, ev.x, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("setslot") /\ Set(ev.i, s[ev.j], ev.ok, ev.failed) /\ Seen
    \/ IsEvent("setfmt") /\ SetFmt(ev.i, F, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("append") /\ Append2(ev.i, ev.x, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("appendslot") /\ Append2(ev.i, s[ev.j], ev.ok, ev.failed) /\ Seen
    \/ IsEvent("appendfmt") /\ AppendFmt(ev.i, F, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("cmp") /\ Cmp(ev.i, ev.j, ev.ok) /\ Seen
    \/ IsEvent("trim") /\ DoTrim(ev.i, ev.x, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("sub") /\ DoSub(ev.i, ev.a, ev.z, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("replace") /\ DoReplace(ev.i, ev.x, ev.y, ev.ok, ev.failed) /\ Seen
    \/ IsEvent("destroy") /\ Destroy(ev.i) /\ Seen
    \/ IsEvent("tokens") /\ DoTokens(ev.i, ev.ds, ev.k, ev.toks, ev.fin) /\ Seen
    \/ IsEnd /\ s = [i \in 0..3 |-> Null] /\ ev.live = 0 /\ ev.bad = 0 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
