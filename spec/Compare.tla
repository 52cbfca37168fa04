------------------------------- MODULE Compare -------------------------------
(* Comparisons of results: percentage differences of corresponding elements,  *)
(* in units of 200 per cent; blanks of a table are written None.              *)
EXTENDS Rational
None == [n |-> 0, d |-> 0]
Pad(x, y) == IF x + y = 0 THEN R(0) ELSE Norm(Abs(x - y), Abs(x + y))
Defined(x, y) == x + y # 0 \/ x = y
PadSeq(a, b) == [i \in DOMAIN a |-> Pad(a[i], b[i])]
RLess(a, b) == RPos(RSub(b, a))
RMax(s) == CHOOSE m \in SetOf(s) : \A x \in SetOf(s) : ~RLess(m, x)
RMin(s) == CHOOSE m \in SetOf(s) : \A x \in SetOf(s) : ~RLess(x, m)
Mean(s) == RDiv(RSum(s), R(Len(s)))
Var(s) == LET m == Mean(s) IN Mean([i \in DOMAIN s |-> LET d == RSub(s[i], m) IN RMul(d, d)])
\* weighted by the size of the elements
Size(a, b) == [i \in DOMAIN a |-> Norm(Abs(a[i] + b[i]), 2)]
Weighted(a, b, ref) == LET o == TLCEval(Size(a, b))
                           r == IF ref = "max" THEN RMax(o) ELSE Mean(o) IN
                       [i \in DOMAIN a |-> RMul(Pad(a[i], b[i]), RDiv(o[i], r))]

\* spectra a[l][i][j]: elements below the diagonal of symmetric ones are blank
Square(a) == Len(a[1]) = Len(a[1][1])
Metric(F(_), a, b) == [i \in DOMAIN a[1] |-> [j \in DOMAIN a[1][1] |->
                         IF Square(a) /\ i > j THEN None ELSE F([l \in DOMAIN a |-> Pad(a[l][i][j], b[l][i][j])])]]
Metrics(a, b) == TLCEval([mean |-> Metric(Mean, a, b), var |-> Metric(Var, a, b)])
Keep(m, c) == [i \in DOMAIN m |-> [j \in DOMAIN m[1] |-> IF m[i][j] # None /\ RLess(m[i][j], c) THEN m[i][j] ELSE None]]
Cut(m, c) == [mean |-> Keep(m.mean, c), var |-> Keep(m.var, RMul(c, c))]
Filled(m) == {<<i, j>> \in (DOMAIN m) \X (DOMAIN m[1]) : m[i][j] # None}
\* the table of the elements which are not blank: mean difference and relative size
Largest(a, b) == CHOOSE x \in {a[l][i][j] + b[l][i][j] : l \in DOMAIN a, i \in DOMAIN a[1], j \in DOMAIN a[1][1]} :
                 \A l \in DOMAIN a, i \in DOMAIN a[1], j \in DOMAIN a[1][1] : a[l][i][j] + b[l][i][j] <= x
Table(a, b) == LET m == Metric(Mean, a, b)
                   top == Largest(a, b) IN
               {[i |-> ij[1] - 1, j |-> ij[2] - 1, off |-> Abs(ij[1] - ij[2]), pad |-> m[ij[1]][ij[2]],
                 size |-> Mean([l \in DOMAIN a |-> Norm(a[l][ij[1]][ij[2]] + b[l][ij[1]][ij[2]], top)])] : ij \in Filled(m)}

\* runs: what both have is compared; relative differences in parts per 10^9, limits in per cent
Limit == [marg_errs |-> 10, fisher |-> 100, inverse_fisher |-> 100]
Shared(f, g) == DOMAIN f \cap DOMAIN g
Passes(kind, diffs) == \A i \in DOMAIN diffs : \A j \in DOMAIN diffs[i] : diffs[i][j] < Limit[kind]
=============================================================================
