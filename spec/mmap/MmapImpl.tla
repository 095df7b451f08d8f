------------------------------ MODULE MmapImpl ------------------------------
(* sc_mmap as the code works: the calls of sc_mmap_init in their order, each of     *)
(* which may fail, msync with the start rounded down to a page, and so on; each     *)
(* operation is a step of Mmap.  Page is 4 here: positions 0..3 of a page stand for *)
(* its first, second, middle and last byte.                                          *)
EXTENDS Mmap, Sequences, TLC
CONSTANTS MaxOps, Offs, Lens, Vals, Ranges, Faults
VARIABLES hist, m
vars == <<mvars, hist, m>>
Init == MInit /\ hist = "" /\ m = 0
Say(s) == m < MaxOps /\ m' = m + 1 /\ hist' = hist \o s \o ";"
B(b, t) == IF b THEN t ELSE ""
Calls == <<"sysconf", "open", "stat", "fallocate", "mmap">>
\* outcome of sc_mmap_init: [rc, n, file, view]
Ran(creat, trunc, rdwr, w, sh, off, len, fault) ==
    LET f == AfterOpen(creat, trunc)
        n == EffLen(f, off, len)
        g == IF w THEN Grown(f, off + n) ELSE f
        fail(x) == [rc |-> -1, n |-> 0, f |-> x, v |-> {}]
        mm == [Off EXCEPT !.on = TRUE, !.off = off, !.len = n, !.w = w, !.sh = sh]
    IN  IF fault = 1 \/ fault = 2 \/ ~f.ex THEN fail(file)
        ELSE IF fault = 3 THEN fail(f)
        ELSE IF w /\ (fault = 4 \/ ~rdwr \/ n <= 0) THEN fail(f)
        ELSE IF fault = (IF w THEN 5 ELSE 4) \/ n <= 0 \/ off % Page # 0 THEN fail(g)
        ELSE [rc |-> 0, n |-> n, f |-> g, v |-> Shown(g, mm)]
DoOpen(s, creat, trunc, rdwr, w, sh, off, len, fault) ==
    /\ ~map[s].on /\ (trunc => \A t \in Slots : ~map[t].on)
    /\ LET r == Ran(creat, trunc, rdwr, w, sh, off, len, fault)
           c == Open(s, creat, trunc, rdwr, w, sh, off, len, fault # 0, r.rc, r.n, r.f, r.v)
       IN  /\ fault # 0 => (r.rc # 0 /\ Ran(creat, trunc, rdwr, w, sh, off, len, 0).rc = 0)
           /\ Assert(ENABLED c, "not a step of Mmap") /\ c
    /\ Say("O," \o ToString(s) \o ",x" \o B(creat, "c") \o B(trunc, "t") \o B(rdwr, "w") \o ",r" \o B(w, "w") \o "," \o (IF sh THEN "1," ELSE "0,")
        \o ToString(off) \o "," \o ToString(len) \o "," \o ToString(fault))
DoStore(s, p, v) ==
    /\ map[s].on /\ map[s].w /\ p < map[s].len /\ map[s].off + p < file.size
    /\ Store(s, p, v, IF map[s].sh THEN [file EXCEPT !.nz = Put(@, map[s].off + p, v)] ELSE file)
    /\ Say("S," \o ToString(s) \o "," \o ToString(p) \o "," \o ToString(v))
InMap(s, off, n) == map[s].on /\ off + n <= map[s].len
Down(x) == (x \div Page) * Page
DoSync(s, off, n) ==
    /\ InMap(s, off, n)
    \* msync(start rounded down, n + what it was rounded by)
    /\ LET pages == Pages(Down(off), n + (off - Down(off))) IN
       Assert(ENABLED Sync(s, off, n, FALSE, 0, pages), "range not covered") /\ Sync(s, off, n, FALSE, 0, pages)
    /\ Say("Y," \o ToString(s) \o "," \o ToString(off) \o "," \o ToString(n))
DoLock(s, off, n) == InMap(s, off, n) /\ Lock(s, off, n, FALSE, 0, map[s].lk \cup Pages(off, n)) /\ Say("L," \o ToString(s) \o "," \o ToString(off) \o "," \o ToString(n))
DoUnlock(s, off, n) == InMap(s, off, n) /\ Unlock(s, off, n, FALSE, 0, map[s].lk \ Pages(off, n)) /\ Say("U," \o ToString(s) \o "," \o ToString(off) \o "," \o ToString(n))
DoClose(s, bad) == (bad => map[s].on) /\ Close(s, bad, IF bad THEN -1 ELSE 0, file) /\ Say("T," \o ToString(s) \o B(bad, ",f"))
Next == \E s \in Slots :
    \/ \E creat, trunc, rdwr, w, sh \in BOOLEAN, off \in Offs, len \in Lens, fault \in Faults : DoOpen(s, creat, trunc, rdwr, w, sh, off, len, fault)
    \/ \E p, v \in Vals : DoStore(s, p, v)
    \/ \E r \in Ranges : \E k \in Ranges : DoSync(s, r, k) \/ DoLock(s, r, k) \/ DoUnlock(s, r, k)
    \/ \E b \in BOOLEAN : DoClose(s, b)
Spec == Init /\ [][Next]_vars
View1 == <<mvars, m>>
Emit == PrintT("T|" \o hist')
\* a shared writable map and the file agree
Coherent == \A s \in Slots : map[s].on /\ map[s].sh => \A x \in Shown(file, map[s]) : <<x[1] + map[s].off, x[2]>> \in file.nz
=============================================================================
