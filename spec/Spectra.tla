------------------------------ MODULE Spectra ------------------------------
(* Angular spectra: which bins, densities, biases and multipoles each element *)
(* is made of, and how they are put together.  A world is given in exact         *)
(* rationals [n, d]; what is computed from it lives in a field the user of    *)
(* this module chooses (the rationals, or residues where those get too long). *)
(*                                                                            *)
(* A world W: z, E, rt, D (growth), D0 (growth of the fiducial cosmology) and *)
(* A (amplitude of the matter power spectrum A k^b) along the redshift grid;  *)
(* H0, c, Om; method of integration; kcut, kwid, offdiag, ia, eta;            *)
(* probes: name -> [edges, dens (bin, z), bias (kind), names (its parameters  *)
(* by bin), ells];  par: the current values of the nuisance parameters.       *)
EXTENDS Rational

CONSTANTS V(_), Add(_, _), Mul(_, _), Inv(_)      \* rationals into the field, and its operations

Q(n, d) == Norm(n, d)
RLe(a, b) == RSub(b, a).n >= 0
RLt(a, b) == RSub(b, a).n > 0
Sub(a, b) == Add(a, Mul(V(R(-1)), b))
Div(a, b) == Mul(a, Inv(b))
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN V(R(1)) ELSE IF k < 0 THEN Inv(Pow(a, -k)) ELSE Mul(a, Pow(a, k - 1))
Dot(u, v) == FoldLeft(Add, V(R(0)), [k \in DOMAIN u |-> Mul(u[k], v[k])])

\* ------------------------------------------------------------------ integration on a regular grid
\* weights are those of unit spacing
Closed(n) ==
    LET w == CASE n = 1 -> [num |-> <<1, 1>>, den |-> 2]
               [] n = 2 -> [num |-> <<1, 4, 1>>, den |-> 3]
               [] n = 3 -> [num |-> <<3, 9, 9, 3>>, den |-> 8]
               [] n = 4 -> [num |-> <<14, 64, 24, 64, 14>>, den |-> 45]
               [] n = 5 -> [num |-> <<95, 375, 250, 250, 375, 95>>, den |-> 288]
               [] n = 6 -> [num |-> <<41, 216, 27, 272, 27, 216, 41>>, den |-> 140] IN
    [i \in 1..(n + 1) |-> Q(w.num[i], w.den)]
AddAt(acc, at, w) == [k \in DOMAIN acc |-> IF k >= at /\ k < at + Len(w) THEN RAdd(acc[k], w[k - at + 1]) ELSE acc[k]]
Nothing(m) == [k \in 1..m |-> R(0)]
\* panels of order n from the left, what is left over with the order that fits
RECURSIVE Panels(_, _, _)
Panels(acc, at, n) == LET left == Len(acc) - at IN
    IF left = 0 THEN acc
    ELSE LET o == IF left < n THEN left ELSE n IN Panels(TLCEval(AddAt(acc, at, Closed(o))), at + o, n)
NewtonCotes(m, n) == Panels(Nothing(m), 1, n)
\* parabolas from the left; an even number of points leaves one interval, which the last three points decide
Simpson(m) == IF m = 1 THEN <<R(0)>>
              ELSE IF m = 2 THEN Closed(1)
              ELSE IF m % 2 = 1 THEN NewtonCotes(m, 2)
              ELSE AddAt(Append(NewtonCotes(m - 1, 2), R(0)), m - 2, <<Q(-1, 12), Q(8, 12), Q(5, 12)>>)
\* Richardson extrapolation of trapezoids, 2^k+1 points
Trapezoid(m, step) == LET n == (m - 1) \div step IN
    [k \in 1..m |-> IF (k - 1) % step # 0 THEN R(0) ELSE IF k = 1 \/ k = m THEN Q(step, 2) ELSE R(step)]
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Combine(u, v, f) == [k \in DOMAIN u |-> RDiv(RSub(RMul(R(f), u[k]), v[k]), R(f - 1))]
RECURSIVE Richardson(_, _, _)
Richardson(m, i, j) == IF j = 0 THEN Trapezoid(m, (m - 1) \div Pow2(i))
                       ELSE TLCEval(Combine(Richardson(m, i, j - 1), Richardson(m, i - 1, j - 1), Pow2(2 * j)))
Romberg(m) == Richardson(m, Log2(m - 1), Log2(m - 1))
RombergPoints(m) == m > 1 /\ Pow2(Log2(m - 1)) = m - 1
Methods == {"newton-cotes_1", "newton-cotes_2", "newton-cotes_3", "newton-cotes_4", "newton-cotes_5", "newton-cotes_6",
            "simpson", "romberg", "quad"}
OrderOf(method) == CASE method = "newton-cotes_1" -> 1 [] method = "newton-cotes_2" -> 2 [] method = "newton-cotes_3" -> 3
                     [] method = "newton-cotes_4" -> 4 [] method = "newton-cotes_5" -> 5 [] OTHER -> 6
Weights(method, m) == CASE method = "simpson" -> Simpson(m)
                        [] method = "romberg" -> Romberg(m)
                        [] method = "quad" -> NewtonCotes(m, 1)
                        [] OTHER -> NewtonCotes(m, OrderOf(method))
\* (a grid too short for the order is the business of the caller)
Integrable(method, m) == (method \in Methods) /\ (method = "romberg" => RombergPoints(m))

\* ------------------------------------------------------------------ a world
Step(W) == V(RSub(W.z[2], W.z[1]))
Reach(W, k) == RMul(RDiv(W.c, W.H0), W.rt[k])
Dist(W, k) == V(Reach(W, k))
Hub(W, k) == V(RMul(W.H0, W.E[k]))
Nz(W) == Len(W.z)
Rule(method, m) == LET w == Weights(method, m) IN TLCEval([k \in DOMAIN w |-> V(w[k])])
Bins(W, p) == 1..(Len(W.probes[p].edges) - 1)
Value(W, p, i) == V(W.par[W.probes[p].names[i]])
Centre(W, p, i) == RMul(Q(1, 2), RAdd(W.probes[p].edges[i], W.probes[p].edges[i + 1]))
\* a redshift on an edge has the bias of one of the two bins it belongs to
BinsAt(W, p, x) == LET e == W.probes[p].edges
                       n == Len(e) - 1 IN
                   IF RLt(x, e[1]) THEN {1} ELSE IF RLt(e[n + 1], x) THEN {n}
                   ELSE {i \in 1..n : RLe(e[i], x) /\ RLe(x, e[i + 1])}
Upper(S) == CHOOSE i \in S : \A j \in S : j <= i
BiasOf(W, p, i, k) ==
    CASE W.probes[p].bias = "constant" -> Value(W, p, i)
      [] W.probes[p].bias = "piecewise" -> Value(W, p, Upper(BinsAt(W, p, W.z[k])))
      [] OTHER -> LET at == CHOOSE m \in 1..Nz(W) : W.z[m] = Centre(W, p, i) IN Div(Value(W, p, 1), V(W.D0[at]))
\* as many values as bins where each bin has its own
BiasFits(W, p) == W.probes[p].bias \in {"constant", "piecewise"} => Len(W.probes[p].names) = Len(W.probes[p].edges) - 1

Efficiency(W, p, i, k) ==
    LET m == Nz(W) - k + 1
        w == Simpson(m) IN
    Mul(Step(W), Dot([x \in 1..m |-> V(w[x])],
                     [x \in 1..m |-> V(RMul(W.probes[p].dens[i][k + x - 1], RSub(R(1), RDiv(W.rt[k], W.rt[k + x - 1]))))]))
Shear(W, p, i, k) ==
    Mul(V(RMul(RMul(RMul(Q(3, 2), W.Om), RMul(RAdd(R(1), W.z[k]), RDiv(W.H0, W.c))), W.rt[k])), Efficiency(W, p, i, k))
Alignment(W, p, i, k) ==
    Div(Mul(Mul(V(RMul(W.par["aIA"], W.par["cIA"])), Pow(V(RAdd(R(1), W.z[k])), W.par["etaIA"].n)),
            Mul(V(RMul(W.Om, W.probes[p].dens[i][k])), Hub(W, k))),
        V(RMul(W.D[k], W.c)))
Weight(W, p, i, k) ==
    IF W.probes[p].bias = "none"
    THEN (IF W.ia THEN Sub(Shear(W, p, i, k), Alignment(W, p, i, k)) ELSE Shear(W, p, i, k))
    ELSE Mul(Mul(Div(Hub(W, k), V(W.c)), V(W.probes[p].dens[i][k])), BiasOf(W, p, i, k))
\* all the weight functions: probe -> bin -> redshift
AllWeights(W) == TLCEval([p \in DOMAIN W.probes |-> TLCEval([i \in Bins(W, p) |-> TLCEval([k \in 1..Nz(W) |-> Weight(W, p, i, k)])])])

Wave(W, l, k) == RDiv(RAdd(l, Q(1, 2)), Reach(W, k))
\* the cut for voids is 1 below, 0 above, one half in the middle (elsewhere it is not a short rational)
Below(W, q) == RLe(q, RSub(W.kcut, W.kwid))
Above(W, q) == RLe(RAdd(W.kcut, W.kwid), q)
Cut(W, p, q, x) == IF "Void" \notin {p, q} \/ Below(W, x) THEN V(R(1)) ELSE IF Above(W, x) THEN V(R(0)) ELSE V(Q(1, 2))
Limber(W, p, q, l, k) == LET x == Wave(W, l, k) IN Mul(Cut(W, p, q, x), Mul(V(W.A[k]), Pow(V(x), W.b)))

\* ------------------------------------------------------------------ the spectra
Ells(W, p, q) == {x \in SetOf(W.probes[p].ells) : x \in SetOf(W.probes[q].ells)}
Left(W, p, q, i, j) == p = q /\ p = "SpectroscopicGalaxy" /\ ~W.offdiag /\ i # j
\* everything of the integrand that does not depend on the bins
Common(W, rule, p, q, l) ==
    TLCEval([k \in 1..Nz(W) |-> Mul(Mul(Mul(rule[k], Step(W)), Limber(W, p, q, l, k)), Div(V(W.c), Mul(Hub(W, k), Pow(Dist(W, k), 2))))])
Element(W, common, ws, p, q, i, j) ==
    IF Left(W, p, q, i, j) THEN V(R(0))
    ELSE Dot(common, [k \in 1..Nz(W) |-> Mul(ws[p][i][k], ws[q][j][k])])
\* the spectrum of a pair: multipole -> bin -> bin
Spectrum(W, rule, ws, p, q) == TLCEval([l \in Ells(W, p, q) |->
    LET c == Common(W, rule, p, q, l) IN
    TLCEval([i \in Bins(W, p) |-> TLCEval([j \in Bins(W, q) |-> Element(W, c, ws, p, q, i, j)])])])
Pairs(order) == {<<order[x[1]], order[x[2]]>> : x \in {y \in (1..Len(order)) \X (1..Len(order)) : y[1] <= y[2]}}
Possible(W) == Integrable(W.method, Nz(W)) /\ \A p \in DOMAIN W.probes : BiasFits(W, p)

\* ------------------------------------------------------------------ densities by bins
\* objects per bin for a density a + b z, and for two kinds those in the overlap of two of their bins
Count(a, b, lo, hi) == RMul(RSub(hi, lo), RAdd(a, RMul(Q(1, 2), RMul(b, RAdd(lo, hi)))))
Larger(a, b) == IF RLt(a, b) THEN b ELSE a
Smaller(a, b) == IF RLt(a, b) THEN a ELSE b
Overlap(a, b, e, f, i, j) ==
    LET lo == Larger(e[i], f[j])
        hi == Smaller(e[i + 1], f[j + 1]) IN
    IF RLt(lo, hi) THEN Count(a, b, lo, hi) ELSE R(0)
=============================================================================
