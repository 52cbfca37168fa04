---------------------------- MODULE Multipoles ----------------------------
(* P12.  The multipoles of every probe, pair of probes and data vector.

   A probe's grid is given by limits (linear or logarithmic) or by a file of
   centres and widths in any order.  Centres and widths are written in half
   units, so that every grid below is made of integers: a linear grid from lo
   to hi has the centres 2l+1, a logarithmic one from lo to lo*b^n in n bins
   has the centres lo*b^i*(1+b).                                            *)
EXTENDS Kit

VARIABLES cfg     \* probe -> its grid description, or Absent
mvars == <<cfg>>

Absent == [k |-> "absent"]
Lin(lo, hi) == [k |-> "lin", lo |-> lo, hi |-> hi]
Log(lo, b, n) == [k |-> "log", lo |-> lo, b |-> b, n |-> n]
File(rows) == [k |-> "file", rows |-> rows]

RECURSIVE Pow(_, _)
Pow(b, i) == IF i = 0 THEN 1 ELSE b * Pow(b, i - 1)

\* a grid is refused when its limits do not enclose anything
Refused(g) == \/ g.k = "lin" /\ g.lo >= g.hi
              \/ g.k = "log" /\ (g.n < 1 \/ g.b < 2)

Bins(g) == CASE g.k = "lin" -> {<<2 * l + 1, 2>> : l \in g.lo..(g.hi - 1)}
             [] g.k = "log" -> {<<g.lo * Pow(g.b, i) * (1 + g.b), 2 * g.lo * Pow(g.b, i) * (g.b - 1)>> : i \in 0..(g.n - 1)}
             [] g.k = "file" -> SetOf(g.rows)
             [] OTHER -> {}
Ells(g) == {r[1] : r \in Bins(g)}
WidthIn(g, l) == (CHOOSE r \in Bins(g) : r[1] = l)[2]
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x[1] < y[1])
Rows(g) == Sorted(Bins(g))

\* ---------------------------------------------------------------- pairs
Shared(g, h) == Ells(g) \cap Ells(h)
Conflict(g, h) == \E l \in Shared(g, h) : WidthIn(g, l) # WidthIn(h, l)
PairOut(g, h) == IF Shared(g, h) = {} THEN "none" ELSE IF Conflict(g, h) THEN "conflict" ELSE "ok"
PairRows(g, h) == Sorted({<<l, WidthIn(g, l)>> : l \in Shared(g, h)})

Present(c) == {p \in DOMAIN c : c[p].k # "absent"}
Usable(c) == \A p \in Present(c) : ~Refused(c[p])

\* ---------------------------------------------------------------- data vectors
\* the range on which a data vector over the probes S is used jointly, and what is left to p alone
Common(c, S) == {l \in UNION {Ells(c[p]) : p \in S} : \A p \in S : l \in Ells(c[p])}
Alone(c, S, p) == Ells(c[p]) \ Common(c, S)
Compatible(c) == \A p \in Present(c), q \in Present(c) : Shared(c[p], c[q]) # {}

DoEdit(p, g) == cfg' = [cfg EXCEPT ![p] = g]
=============================================================================
