-------------------------------- MODULE Stem --------------------------------
(***************************************************************************)
(* The step-fit derivative: the slope of the least-squares line through the *)
(* widest central range of samples on which the line is within one per cent *)
(* of every non-vanishing sample; the central three if there is none.       *)
(* Exact integer arithmetic: sums are over the window lo..hi.               *)
(***************************************************************************)
EXTENDS Rational

SumOver(f(_), lo, hi) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [i \in 1..(hi - lo + 1) |-> lo + i - 1])
\* slope num/den, intercept int/den
Fit(x, y, lo, hi) ==
    LET n == hi - lo + 1
        sx == SumOver(LAMBDA i : x[i], lo, hi)
        sy == SumOver(LAMBDA i : y[i], lo, hi)
        sxx == SumOver(LAMBDA i : x[i] * x[i], lo, hi)
        sxy == SumOver(LAMBDA i : x[i] * y[i], lo, hi)
    IN [num |-> n * sxy - sx * sy, int |-> sxx * sy - sx * sxy, den |-> n * sxx - sx * sx]
Residual(f, x, y, i) == Abs(y[i] * f.den - f.int - f.num * x[i])
Linear(x, y, lo, hi) == LET f == Fit(x, y, lo, hi) IN
    \A i \in lo..hi : y[i] # 0 => 100 * Residual(f, x, y, i) < f.den * Abs(y[i])
\* exactly on the edge of the tolerance (not decided by floating point numbers)
OnEdge(x, y, lo, hi) == LET f == Fit(x, y, lo, hi) IN
    \E i \in lo..hi : y[i] # 0 /\ 100 * Residual(f, x, y, i) = f.den * Abs(y[i])
Slope(x, y, lo, hi) == LET f == Fit(x, y, lo, hi) IN Norm(f.num, f.den)
Settled(x, y, lo, hi) == hi - lo + 1 <= 3 \/ Linear(x, y, lo, hi)

\* how far to shrink, and the derivative
RECURSIVE Shrink(_, _, _)
Shrink(x, y, k) == IF Settled(x, y, 1 + k, Len(x) - k) THEN k ELSE Shrink(x, y, k + 1)
Derivative(x, y) == LET k == Shrink(x, y, 0) IN Slope(x, y, 1 + k, Len(x) - k)
=============================================================================
