---------------------------- MODULE Covariance ----------------------------
(* P14.  From spectra and noise to the observed spectra, and from these to
   the covariance and derivative vectors of a data vector.

   Probes are 1..4.  A spectrum is stored for one orientation <<a,b>> of its
   pair, with its multipoles l (in half units: 2*ell) and its values x[l][i][j],
   i a bin of a, j a bin of b.  Widths and sky fraction are chosen so that
   1/sqrt(width * sky) is a whole number w[l] * f.                            *)
EXTENDS Kit

VARIABLES cl, noise, delta
(* cl: set of [a, b, l, w, x];  noise: set of [a, b, x] (one matrix, all multipoles);
   delta: set of [a, b, l, x], observed spectra, empty before they are evaluated *)
cvars == <<cl, noise, delta>>

Has(S, a, b) == \E e \in S : e.a = a /\ e.b = b
One(S, a, b) == CHOOSE e \in S : e.a = a /\ e.b = b
Ids(e) == <<e.a, e.b>>
HasEither(S, a, b) == Has(S, a, b) \/ Has(S, b, a)

\* ---------------------------------------------------------------- observed spectra
Scaled(c, nz, f) == [a |-> c.a, b |-> c.b, l |-> c.l,
    x |-> [k \in 1..Len(c.l) |-> [i \in 1..Len(c.x[k]) |-> [j \in 1..Len(c.x[k][i]) |->
                c.w[k] * f * (c.x[k][i][j] + nz.x[i][j])]]]]
Observed(cs, ns, f) == {Scaled(c, One(ns, c.a, c.b), f) : c \in cs}

\* noise made from the shot noise of each probe: diagonal, on equal probes only
ShotNoise(cs, shot, times) ==
    {[a |-> c.a, b |-> c.b,
      x |-> [i \in 1..Len(c.x[1]) |-> [j \in 1..Len(c.x[1][i]) |->
              IF c.a = c.b /\ i = j THEN shot[c.a][i] * times[c.a] ELSE 0]]] : c \in cs}

\* ---------------------------------------------------------------- reading a pair either way round
Grid(S, a, b) == (IF Has(S, a, b) THEN One(S, a, b) ELSE One(S, b, a)).l
\* value at multipole l for bin i of a and bin j of b
Val(S, a, b, l, i, j) ==
    IF Has(S, a, b) THEN LET e == One(S, a, b) IN e.x[PosOf(l, e.l)][i][j]
    ELSE LET e == One(S, b, a) IN e.x[PosOf(l, e.l)][j][i]
Shape(S, a, b) == IF Has(S, a, b) THEN LET e == One(S, a, b) IN <<Len(e.x[1]), Len(e.x[1][1])>>
                  ELSE LET e == One(S, b, a) IN <<Len(e.x[1][1]), Len(e.x[1])>>

\* ---------------------------------------------------------------- stacking of the bins
(* column by column; the upper triangle only where both bins are of the same probe *)
RECURSIVE Cols(_, _, _, _)
Cols(nA, nB, symm, j) ==
    IF j > nB THEN <<>>
    ELSE [i \in 1..(IF symm THEN j ELSE nA) |-> <<i, j>>] \o Cols(nA, nB, symm, j + 1)
Enum(S, a, b) == LET s == Shape(S, a, b) IN Cols(s[1], s[2], a = b, 1)
Tagged(v, k) == [t \in 1..Len(v) |-> <<k, v[t][1], v[t][2]>>]
\* the elements of a data vector: <<position of the spectrum, bin, bin>>
RECURSIVE Stack(_, _, _)
Stack(S, dv, k) == IF k > Len(dv) THEN <<>> ELSE Tagged(Enum(S, dv[k][1], dv[k][2]), k) \o Stack(S, dv, k + 1)

\* ---------------------------------------------------------------- covariance
Four(AB, CD) == {<<AB[1], CD[1]>>, <<AB[2], CD[2]>>, <<AB[1], CD[2]>>, <<AB[2], CD[1]>>}
Needed(dv) == UNION {Four(dv[m], dv[n]) : m \in 1..Len(dv), n \in 1..Len(dv)}
Meet(S, ps) == {l \in UNION {SetOf(Grid(S, p[1], p[2])) : p \in ps} : \A p \in ps : l \in SetOf(Grid(S, p[1], p[2]))}
Ells(S, dv) == Meet(S, Needed(dv))
Possible(S, dv) == \A p \in Needed(dv) : HasEither(S, p[1], p[2])

\* covariance times 2*ell+1, of two elements
Elem(S, dv, l, r, c) ==
    LET A == dv[r[1]][1]
        B == dv[r[1]][2]
        C == dv[c[1]][1]
        D == dv[c[1]][2] IN
    Val(S, A, C, l, r[2], c[2]) * Val(S, B, D, l, r[3], c[3]) + Val(S, A, D, l, r[2], c[3]) * Val(S, B, C, l, r[3], c[2])
Cov(S, dv, l) == LET s == TLCEval(Stack(S, dv, 1)) IN TLCEval([r \in 1..Len(s) |-> [c \in 1..Len(s) |-> Elem(S, dv, l, s[r], s[c])]])
Modes(l) == l + 1
Up(ls) == SetToSortSeq(ls, <)

\* ---------------------------------------------------------------- derivatives, stacked alike
Meeting(S, dv) == Meet(S, SetOf(dv))
Vector(S, dv, l) == LET s == Stack(S, dv, 1) IN [r \in 1..Len(s) |-> Val(S, dv[s[r][1]][1], dv[s[r][1]][2], l, s[r][2], s[r][3])]

\* ---------------------------------------------------------------- matrix of all the pairs of some probes
RECURSIVE ProbeBins(_, _, _)
ProbeBins(S, ps, k) == IF k > Len(ps) THEN <<>>
                       ELSE [i \in 1..Shape(S, ps[k], ps[k])[1] |-> <<ps[k], i>>] \o ProbeBins(S, ps, k + 1)
AllPairs(ps) == {<<ps[m], ps[n]>> : m \in 1..Len(ps), n \in 1..Len(ps)}
Full(S, ps, l) == LET s == ProbeBins(S, ps, 1) IN
                  [r \in 1..Len(s) |-> [c \in 1..Len(s) |-> Val(S, s[r][1], s[c][1], l, s[r][2], s[c][2])]]

\* ---------------------------------------------------------------- actions
DoLoad(cs) == cl' = cs /\ noise' = {} /\ delta' = {}
DoNoise(ns) == noise' = ns /\ UNCHANGED <<cl, delta>>
\* noise is made only where none was given, and then stays
NoiseFor(shot, times) == IF noise = {} THEN ShotNoise(cl, shot, times) ELSE noise
DoEvaluate(f, shot, times) == /\ noise' = NoiseFor(shot, times)
                              /\ delta' = Observed(cl, NoiseFor(shot, times), f)
                              /\ UNCHANGED cl
=============================================================================
