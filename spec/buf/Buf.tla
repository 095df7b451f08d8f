--------------------------------- MODULE Buf ---------------------------------
(* Two serialisation buffers.  A buffer is                                     *)
(*   up    in use                                                              *)
(*   mem   what is known of its bytes (-1: unspecified), at least wp of them   *)
(*   rp,wp read and write position,  cap capacity,  lim growth limit           *)
(*   ref   wraps memory it does not own, never grows                           *)
(*   ok    no error since the last clear                                       *)
(* e is the state read back from the code after the operation: <<rp, wp, cap,  *)
(* ok>>; where the contract leaves a choice (the capacity after growing, the   *)
(* positions of a buffer that has become invalid) it is taken from e.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE b
vars == <<b>>
Big == 1073741824
Down == [up |-> FALSE, mem |-> << >>, rp |-> 0, wp |-> 0, cap |-> 0, lim |-> Big, ref |-> FALSE, ok |-> TRUE]
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Pad(m, n) == IF Len(m) >= n THEN m ELSE m \o [k \in 1..(n - Len(m)) |-> -1]
Zeros(n) == [k \in 1..n |-> 0]
Bytes(r, pos, n) == SubSeq(r.mem, pos + 1, pos + n)
Match(known, seen) == Len(known) = Len(seen) /\ \A k \in 1..Len(known) : known[k] \in {-1, seen[k]}
Overlay(m, pos, x) == LET p == Pad(m, pos + Len(x)) IN
    SubSeq(p, 1, pos) \o x \o SubSeq(p, pos + Len(x) + 1, Len(p))
RECURSIVE LE(_, _)
LE(n, k) == IF k = 0 THEN << >> ELSE <<n % 256>> \o LE(n \div 256, k - 1)
NullLen == <<255, 239, 255, 255, 255, 255, 255, 255>>
Fits(r, n) == r.wp + n <= r.cap
\* growing by need in at most k steps, each rounding the capacity up to 4096
CanRefuse(r, need, k, failed) ==
    /\ ~Fits(r, need)
    /\ failed \/ r.ref \/ r.cap + need + 4095 * k > r.lim

Same(r, e) == e[1] = r.rp /\ e[2] = r.wp /\ e[3] = r.cap /\ e[4] = r.ok
CapOk(r, wp2, e) == /\ wp2 <= e[3]
                    /\ IF wp2 <= r.cap THEN e[3] = r.cap ELSE ~r.ref /\ e[3] >= r.cap /\ e[3] <= r.lim
\* a buffer that is or has become invalid: positions stay in range, bytes below the
\* write position stay what they were
Invalid(r, e) == [r EXCEPT !.ok = FALSE, !.rp = e[1], !.wp = e[2], !.cap = e[3],
                           !.mem = Pad(SubSeq(r.mem, 1, Min2(r.wp, e[2])), e[2])]
InRange(r, e) == /\ e[4] = FALSE /\ e[1] <= e[2] /\ e[2] <= e[3]
                 /\ e[3] >= r.cap /\ (r.ref => e[3] = r.cap) /\ e[3] <= Max2(r.cap, r.lim)
Put1(i, r) == b' = [b EXCEPT ![i] = r]

\* ------------------------------------------------------------ life cycle
Init1(i, cap, ok, failed) ==
    /\ ~b[i].up
    /\ IF ok THEN Put1(i, [Down EXCEPT !.up = TRUE, !.cap = cap]) ELSE failed /\ UNCHANGED b
Wrap(i, cap, ref, data, x) ==
    /\ ~b[i].up
    /\ Put1(i, [Down EXCEPT !.up = TRUE, !.cap = cap, !.ref = ref, !.lim = IF ref THEN cap ELSE Big,
                            !.mem = x, !.wp = IF data THEN cap ELSE 0])
Term(i) == b[i].up /\ Put1(i, Down)
Limit(i, n) == Put1(i, [b[i] EXCEPT !.lim = n])
Clear(i) == Put1(i, [b[i] EXCEPT !.rp = 0, !.wp = 0, !.ok = TRUE, !.mem = << >>])
Compacted(r) == [r EXCEPT !.rp = 0, !.wp = r.wp - r.rp, !.mem = Bytes(r, r.rp, r.wp - r.rp)]
Compact(i) == Put1(i, Compacted(b[i]))
Reserve(i, n, ret, failed, e) == LET r == b[i] IN
    IF ret THEN /\ CapOk(r, r.wp + n, e)
                /\ Put1(i, [r EXCEPT !.cap = e[3]])
           ELSE /\ CanRefuse(r, n, 1, failed)
                /\ Put1(i, [r EXCEPT !.ok = FALSE])
Shrink(i, n, ret, failed, e) == LET c == Compacted(b[i]) IN
    /\ IF c.ref THEN e[3] = c.cap ELSE c.wp <= e[3] /\ e[3] <= c.cap /\ e[3] >= Min2(n, c.cap)
    /\ IF ret THEN Put1(i, [c EXCEPT !.cap = e[3]])
              ELSE failed /\ e[3] = c.cap /\ Put1(i, [c EXCEPT !.ok = FALSE])

\* ------------------------------------------------------------ writing
\* put bytes x at the write position
PutK(i, x, k, failed, e) == LET r == b[i]  n == Len(x) IN
    IF r.ok /\ e[4]
    THEN /\ CapOk(r, r.wp + n, e)
         /\ Put1(i, [r EXCEPT !.wp = r.wp + n, !.cap = e[3], !.mem = Overlay(r.mem, r.wp, x)])
    ELSE /\ r.ok => CanRefuse(r, n, k, failed)
         /\ InRange(r, e)
         /\ r.ok \/ e[2] >= r.wp
         /\ Put1(i, Invalid(r, e))
StrBytes(x) == LE(Len(x), 8) \o x \o <<0>>
\* text appended to the text in the buffer, over its terminating NUL
PutText(i, x, failed, e) ==
    LET r == b[i]  at == IF r.wp > r.rp THEN r.wp - 1 ELSE r.wp  n == Len(x) IN
    IF r.ok /\ e[4]
    THEN /\ at + n + 1 <= e[3] /\ e[3] >= r.cap /\ (e[3] > r.cap => ~r.ref /\ e[3] <= r.lim)
         /\ Put1(i, [r EXCEPT !.wp = at + n + 1, !.cap = e[3], !.mem = SubSeq(Pad(r.mem, at), 1, at) \o x \o <<0>>])
    ELSE /\ r.ok => CanRefuse(r, n + 1, 1, failed)
         /\ InRange(r, e)
         /\ Put1(i, [Invalid(r, e) EXCEPT !.mem = Pad(<< >>, e[2])])
PutFmt(i, x, failed, e) ==
    IF b[i].ok THEN PutK(i, StrBytes(x), 1, failed, e)
    ELSE InRange(b[i], e) /\ Put1(i, [Invalid(b[i], e) EXCEPT !.mem = Pad(<< >>, e[2])])
\* overwrite at a position, never beyond the capacity
SetAt(i, pos, x) == LET r == b[i] IN
    IF r.ok /\ pos + Len(x) <= r.cap
    THEN Put1(i, IF x = << >> THEN r ELSE [r EXCEPT !.mem = Overlay(r.mem, pos, x)])
    ELSE Put1(i, [r EXCEPT !.ok = FALSE])
\* the caller writes x itself and marks it written
Written(i, x) == LET r == b[i] IN Fits(r, Len(x)) /\ Put1(i, [r EXCEPT !.wp = r.wp + Len(x), !.mem = Overlay(r.mem, r.wp, x)])
SetRpos(i, pos) == LET r == b[i] IN Put1(i, IF pos <= r.wp THEN [r EXCEPT !.rp = pos] ELSE [r EXCEPT !.ok = FALSE])
SetWpos(i, pos) == LET r == b[i] IN
    Put1(i, IF pos <= r.cap THEN [r EXCEPT !.wp = pos, !.mem = Pad(r.mem, pos)] ELSE [r EXCEPT !.ok = FALSE])

\* ------------------------------------------------------------ reading
\* n bytes at pos, zeros and an invalid buffer if they are not all there
PeekOk(r, pos, n) == r.ok /\ pos + n <= r.wp
Peek(i, pos, n, v) == LET r == b[i] IN
    IF PeekOk(r, pos, n) THEN Match(Bytes(r, pos, n), v) /\ UNCHANGED b
    ELSE v = Zeros(n) /\ Put1(i, [r EXCEPT !.ok = FALSE])
Get(i, n, v) == LET r == b[i] IN
    IF PeekOk(r, r.rp, n) THEN Match(Bytes(r, r.rp, n), v) /\ Put1(i, [r EXCEPT !.rp = r.rp + n])
    ELSE v = Zeros(n) /\ Put1(i, [r EXCEPT !.ok = FALSE])
Bool(m, v) == m[1] = -1 \/ (v = (m[1] # 0))
GetBool(i, v) == LET r == b[i] IN
    IF PeekOk(r, r.rp, 1) THEN Bool(Bytes(r, r.rp, 1), v) /\ Put1(i, [r EXCEPT !.rp = r.rp + 1])
    ELSE ~v /\ Put1(i, [r EXCEPT !.ok = FALSE])
\* a pointer to n bytes; NULL is <<-1>>
Blob(i, n, v, e) == LET r == b[i] IN
    IF n = 0 THEN v = <<-1>> /\ UNCHANGED b
    ELSE IF ~r.ok THEN InRange(r, e) /\ e[2] = r.wp /\ Put1(i, [r EXCEPT !.rp = e[1]])
    ELSE IF r.rp + n <= r.wp THEN Match(Bytes(r, r.rp, n), v) /\ Put1(i, [r EXCEPT !.rp = r.rp + n])
    ELSE v = <<-1>> /\ Put1(i, [r EXCEPT !.ok = FALSE])
\* bytes of the string and its terminator; NULL is <<-1>>
SmallLen(h) == \A k \in 4..8 : h[k] = 0
GetStr(i, v, e) == LET r == b[i]  h == Bytes(r, r.rp, 8)  n == h[1] + (256 * h[2]) + (65536 * h[3])
                       bad == InRange(r, e) /\ e[2] = r.wp /\ v = <<-1>> /\ Put1(i, Invalid(r, e)) IN
    IF ~PeekOk(r, r.rp, 8) THEN bad
    ELSE IF \E k \in 1..8 : h[k] = -1 THEN   \* unspecified length: only the range is checked
        /\ e[1] <= e[2] /\ e[2] = r.wp /\ e[3] = r.cap /\ Put1(i, [r EXCEPT !.rp = e[1], !.ok = e[4]])
    ELSE IF h = NullLen THEN v = <<-1>> /\ Put1(i, [r EXCEPT !.rp = r.rp + 8])
    ELSE IF ~SmallLen(h) \/ r.rp + 9 + n > r.wp THEN bad
    ELSE IF e[4] THEN Match(Bytes(r, r.rp + 8, n + 1), v) /\ Put1(i, [r EXCEPT !.rp = r.rp + 9 + n])
    ELSE r.mem[r.rp + 9 + n] # 0 /\ bad
\* the caller consumes n bytes itself
Consumed(i, n, v) == LET r == b[i] IN
    r.rp + n <= r.wp /\ Match(Bytes(r, r.rp, n), v) /\ Put1(i, [r EXCEPT !.rp = r.rp + n])
\* as much as fits, without growing; a buffer that refuses takes nothing
Move(d, s) == LET rd == b[d]  rs == b[s]  n == Min2(rd.cap - rd.wp, rs.wp - rs.rp) IN
    IF n = 0 THEN UNCHANGED b
    ELSE IF ~rd.ok THEN UNCHANGED b
    ELSE b' = [b EXCEPT ![d] = [rd EXCEPT !.wp = rd.wp + n, !.mem = Overlay(rd.mem, rd.wp, Bytes(rs, rs.rp, n))],
                        ![s] = [rs EXCEPT !.rp = rs.rp + n]]
=============================================================================
