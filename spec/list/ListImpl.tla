------------------------------ MODULE ListImpl ------------------------------
(* Circular doubly linked nodes: heads -1, -2, ...; entries 1, 2, ...          *)
EXTENDS List
CONSTANTS NL, NE
VARIABLES nx, pv, hist
mvars == <<L, nx, pv, hist>>
Nodes == (1..NE) \cup {-i : i \in 1..NL}
V == L
MInit == /\ L = [i \in 1..NL |-> << >>]
         /\ nx = [x \in Nodes |-> x] /\ pv = [x \in Nodes |-> x] /\ hist = ""
Step(txt) == hist' = hist \o txt \o ";"
T(x) == " " \o ToString(x)
Unlink(g, e) == LET n1 == [g[1] EXCEPT ![g[2][e]] = g[1][e]]
                    p1 == [g[2] EXCEPT ![g[1][e]] = g[2][e]]
                IN <<[n1 EXCEPT ![e] = e], [p1 EXCEPT ![e] = e]>>
\* link e between a and its successor
LinkAfter(g, a, e) == LET b == g[1][a] IN
    <<[g[1] EXCEPT ![a] = e, ![e] = b], [[g[2] EXCEPT ![e] = a] EXCEPT ![b] = e]>>
G == <<nx, pv>>
Set(g) == nx' = g[1] /\ pv' = g[2]
INext ==
  \/ \E i \in 1..NL, e \in 1..NE :
       \/ AddHead(i, e) /\ Set(LinkAfter(Unlink(G, e), -i, e)) /\ Step("addh" \o T(i) \o T(e))
       \/ AddTail(i, e) /\ (LET g == Unlink(G, e) IN Set(LinkAfter(g, g[2][-i], e))) /\ Step("addt" \o T(i) \o T(e))
       \/ \E p \in 1..NE :
            \/ AddAfter(i, p, e) /\ Set(LinkAfter(Unlink(G, e), p, e)) /\ Step("adda" \o T(i) \o T(p) \o T(e))
            \/ AddBefore(i, p, e) /\ (LET g == Unlink(G, e) IN Set(LinkAfter(g, g[2][p], e)))
                  /\ Step("addb" \o T(i) \o T(p) \o T(e))
  \/ \E e \in 1..NE : Del(e) /\ Set(Unlink(G, e)) /\ Step("del" \o T(e))
  \/ \E i \in 1..NL :
       \/ IF nx[-i] = -i THEN PopHead(i, 0) /\ Set(G) /\ Step("poph" \o T(i))
          ELSE PopHead(i, nx[-i]) /\ Set(Unlink(G, nx[-i])) /\ Step("poph" \o T(i))
       \/ IF pv[-i] = -i THEN PopTail(i, 0) /\ Set(G) /\ Step("popt" \o T(i))
          ELSE PopTail(i, pv[-i]) /\ Set(Unlink(G, pv[-i])) /\ Step("popt" \o T(i))
MSpec == MInit /\ [][INext]_mvars
RECURSIVE Walk(_, _, _)
Walk(f, x, i) == IF x = -i THEN << >> ELSE <<x>> \o Walk(f, f[x], i)
Refines == \A i \in 1..NL : /\ Walk(nx, nx[-i], i) = L[i]
                            /\ Walk(pv, pv[-i], i) = Rev(L[i])
SelfLinked == \A e \in 1..NE : Where(e) = {} => nx[e] = e /\ pv[e] = e
Emit == PrintT("T|" \o hist')
=============================================================================
