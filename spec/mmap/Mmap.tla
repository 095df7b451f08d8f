-------------------------------- MODULE Mmap --------------------------------
(* A file and up to two memory maps of it.  Positions are bytes; the content is   *)
(* the set of <<position, value>> with a non-zero value.                           *)
EXTENDS Integers, FiniteSets
CONSTANT Page
VARIABLES file, map
mvars == <<file, map>>
None == [ex |-> FALSE, size |-> 0, nz |-> {}]
Off == [on |-> FALSE, off |-> 0, len |-> 0, w |-> FALSE, sh |-> FALSE, own |-> {}, ov |-> {}, lk |-> {}]
Slots == {1, 2}
MInit == file = None /\ map = [s \in Slots |-> Off]
Max2(a, b) == IF a > b THEN a ELSE b
Pages(a, n) == IF n <= 0 THEN {} ELSE (a \div Page)..((a + n - 1) \div Page)
RoundUp(n) == ((n + Page - 1) \div Page) * Page
Put(nz, p, v) == {x \in nz : x[1] # p} \cup (IF v = 0 THEN {} ELSE {<<p, v>>})

\* the file once open() has worked
AfterOpen(creat, trunc) ==
    IF ~file.ex THEN [file EXCEPT !.ex = creat] ELSE IF trunc THEN [ex |-> TRUE, size |-> 0, nz |-> {}] ELSE file
Grown(f, n) == [f EXCEPT !.size = Max2(@, n)]
EffLen(f, off, len) == IF len = 0 THEN f.size - off ELSE len
Possible(f, off, n, w, sh, rdwr) == f.ex /\ n > 0 /\ (w /\ sh => rdwr)
\* what must work: everything documented
Expected(f, off, n, w, sh, rdwr) ==
    Possible(f, off, n, w, sh, rdwr) /\ off % Page = 0 /\ (w => rdwr) /\ (~w => off + n <= f.size)
\* what the mapping shows of the file
View(f, m) == {<<x[1] - m.off, x[2]>> : x \in {y \in f.nz : y[1] >= m.off /\ y[1] < m.off + m.len}}
\* a private page that was stored to is a copy
Shown(f, m) == {x \in View(f, m) : x[1] \div Page \notin m.own} \cup m.ov

\* copies of truncated pages are gone
Kept(f) == [s \in Slots |-> IF file.size > 0 /\ f.size = 0 THEN [map[s] EXCEPT !.own = {}, !.ov = {}] ELSE map[s]]
\* retval, m.len, the file's new state, the view through the new map
Open(s, creat, trunc, rdwr, w, sh, off, len, excuse, rc, mlen, nf, view) ==
    LET f == AfterOpen(creat, trunc)
        n == EffLen(f, off, len)
        g == IF w THEN Grown(f, off + n) ELSE f
        m == [Off EXCEPT !.on = TRUE, !.off = off, !.len = n, !.w = w, !.sh = sh]
    IN  \/ /\ rc = 0 /\ Possible(f, off, n, w, sh, rdwr)
           /\ mlen = n /\ nf = g /\ file' = g /\ map' = [Kept(f) EXCEPT ![s] = m] /\ view = Shown(g, m)
        \/ /\ rc < 0 /\ (excuse \/ ~Expected(f, off, n, w, sh, rdwr)) /\ map' = Kept(nf)
           /\ nf \in {file, f} \cup (IF w /\ off + n > f.size THEN {Grown(f, off + n)} ELSE {}) /\ file' = nf
Store(s, p, v, nf) ==
    /\ map[s].on /\ map[s].w
    /\ IF map[s].sh THEN nf = [file EXCEPT !.nz = Put(@, map[s].off + p, v)] /\ UNCHANGED map
       ELSE LET m == map[s]
                c == IF p \div Page \in m.own THEN {} ELSE {x \in View(file, m) : x[1] \div Page = p \div Page}
            IN nf = file /\ map' = [map EXCEPT ![s].own = @ \cup {p \div Page}, ![s].ov = Put(@ \cup c, p, v)]
    /\ file' = nf
\* every page of the range is written back before it returns
Sync(s, off, n, excuse, rc, pages) ==
    /\ \/ rc = 0 /\ (map[s].sh /\ map[s].w => Pages(off, n) \subseteq pages)
       \/ rc < 0 /\ (excuse \/ off + n > RoundUp(map[s].len))
    /\ UNCHANGED mvars
\* lk is what the kernel has locked; the pages of the range, and no others (whether an
\* empty range touches the page it points into is left open)
Lock(s, off, n, excuse, rc, lk) ==
    /\ UNCHANGED file
    /\ \/ rc = 0 /\ lk \in {map[s].lk \cup Pages(off, n)} \cup (IF n = 0 THEN {map[s].lk \cup {off \div Page}} ELSE {})
       \/ rc < 0 /\ excuse /\ lk = map[s].lk
    /\ map' = [map EXCEPT ![s].lk = lk]
Unlock(s, off, n, excuse, rc, lk) ==
    /\ UNCHANGED file
    /\ \/ rc = 0 /\ lk \in {map[s].lk \ Pages(off, n)} \cup (IF n = 0 THEN {map[s].lk \ {off \div Page}} ELSE {})
       \/ rc < 0 /\ excuse /\ lk = map[s].lk
    /\ map' = [map EXCEPT ![s].lk = lk]
Close(s, unmapFailed, rc, nf) ==
    /\ nf = file /\ UNCHANGED file
    /\ (IF map[s].on THEN (rc = 0) = ~unmapFailed ELSE rc = 0)
    /\ map' = [map EXCEPT ![s] = Off]
=============================================================================
