------------------------------- MODULE Contours -------------------------------
(* Triangular plots: which parameters, matrices and confidence levels the       *)
(* marks of every panel stand for, the ranges they are drawn over, the legend,  *)
(* and the matrix of correlations.  A mark is what can be read off the figure:  *)
(* a Gaussian by its centre and variance, an ellipse by its centre and the      *)
(* covariance whose region of that confidence it encloses.                      *)
EXTENDS Rational

\* alphabetical
Abc == <<"Omb", "Omm", "gamma", "h", "mnu", "ns", "sigma8", "w0", "wa">>
TeX == [Omb |-> "\\Omega_b", Omm |-> "\\Omega_m", gamma |-> "\\gamma", h |-> "h", mnu |-> "M_\\nu[\\mathrm{eV}]", ns |-> "n_s",
        sigma8 |-> "\\sigma_8", w0 |-> "w_0", wa |-> "w_a"]
Math(s) == "$" \o s \o "$"
\* names of matrices are sequences of words
Word(w) == CASE w = "WL" -> "\\mathrm{WL}" [] w = "GCph" -> "\\mathrm{GC_{ph}}" [] w = "GCsp" -> "\\mathrm{GC_{sp}}"
             [] w = "XC" -> "\\mathrm{XC}" [] w = "Cl" -> "C_{\\ell}" [] w = "Pk" -> "P_k" [] OTHER -> w
Concat(s) == FoldLeft(LAMBDA a, b : a \o b, "", s)
Plain(words) == Concat(words)
Label(words) == Math(Concat(MapSeq(Word, words)))

\* world: fid: parameter -> value; mats: sequence of [words, sig: parameter -> error, rho: pair -> correlation]
Sorted(S) == SelectSeq(Abc, LAMBDA p : p \in S)
Cov(M, p, q) == RMul(RMul(M.sig[p], M.sig[q]), IF p = q THEN R(1) ELSE M.rho[<<p, q>>])

\* cls: [gauss, ellipse], sequences of [cl, alpha] in thousandths
\* an end of a range: at + reach times the half-width of 99 per cent of a unit Gaussian
RDivI(a, n) == RDiv(a, R(n))
Mean(s) == RDivI(RSum(s), Len(s))
Computed(w, p) == LET s == Mean(MapSeq(LAMBDA M : M.sig[p], w.mats)) IN
                  [lo |-> [at |-> w.fid[p], reach |-> RNeg(s)], hi |-> [at |-> w.fid[p], reach |-> s]]
Ranges(w, ps) == [p \in SetOf(ps) |-> Computed(w, p)]

Gauss(w, p, m, c) == [kind |-> "gauss", matrix |-> m, cl |-> c.cl, alpha |-> c.alpha, mean |-> w.fid[p], var |-> Cov(w.mats[m], p, p)]
Ell(w, p, q, m, c) == [kind |-> "ellipse", matrix |-> m, cl |-> c.cl, alpha |-> c.alpha, x |-> w.fid[p], y |-> w.fid[q],
                       xx |-> Cov(w.mats[m], p, p), yy |-> Cov(w.mats[m], q, q), xy |-> Cov(w.mats[m], p, q)]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* order: positions of matrices
Marks(w, p, q, order, cls) ==
    Cat([k \in DOMAIN order |-> IF p = q THEN [c \in DOMAIN cls.gauss |-> Gauss(w, p, order[k], cls.gauss[c])]
                                ELSE [c \in DOMAIN cls.ellipse |-> Ell(w, p, q, order[k], cls.ellipse[c])]])
Panel(w, ps, i, j, order, cls) ==
    [on |-> i >= j,
     marks |-> IF i >= j THEN Marks(w, ps[j], ps[i], order, cls) ELSE <<>>,
     x |-> ps[j], y |-> IF i = j THEN "" ELSE ps[i],
     xlabel |-> IF i = Len(ps) THEN Math(TeX[ps[j]]) ELSE "",
     ylabel |-> IF i = j THEN "$P/P_{\\rm max}$" ELSE IF j = 1 THEN Math(TeX[ps[i]]) ELSE ""]
Picture(w, ps, order, cls) ==
    [panels |-> [i \in DOMAIN ps |-> [j \in DOMAIN ps |-> Panel(w, ps, i, j, order, cls)]],
     legend |-> [k \in DOMAIN order |-> [label |-> Label(w.mats[order[k]].words), matrix |-> order[k]]]]
All(w) == [k \in DOMAIN w.mats |-> k]
Heat(w, m) == LET ps == Sorted(DOMAIN w.fid) IN
    [title |-> Label(w.mats[m].words), names |-> MapSeq(LAMBDA p : Math(TeX[p]), ps),
     cells |-> [i \in DOMAIN ps |-> [j \in DOMAIN ps |-> IF i = j THEN R(1) ELSE w.mats[m].rho[<<ps[i], ps[j]>>]]]]

\* ready: the parameters the configuration was made for; a new one starts without ranges
VARIABLES pars, ranges, files, cls, ready, pic
cvars == <<pars, ranges, files, cls, ready, pic>>
Choose(w, ps) == pars' = (IF ps = <<>> THEN Sorted(DOMAIN w.fid) ELSE ps) /\ UNCHANGED <<ranges, files, cls, ready, pic>>
Compute(w) == ranges' = Ranges(w, pars) /\ UNCHANGED <<pars, files, cls, ready, pic>>
Load(f) == ranges' = (IF f \in DOMAIN files THEN files[f] ELSE ranges) /\ UNCHANGED <<pars, files, cls, ready, pic>>
Save(f, over) == /\ files' = IF f \in DOMAIN files /\ ~over THEN files ELSE [x \in DOMAIN files \cup {f} |-> IF x = f THEN ranges ELSE files[x]]
                 /\ UNCHANGED <<pars, ranges, cls, ready, pic>>
Configure(c) == cls' = c /\ ranges' = [p \in {} |-> <<>>] /\ ready' = SetOf(pars) /\ UNCHANGED <<pars, files, pic>>
CanDraw == SetOf(pars) \subseteq DOMAIN ranges \cap ready
Draw(w, order) == CanDraw /\ pic' = Picture(w, pars, order, cls) /\ UNCHANGED <<pars, ranges, files, cls, ready>>
=============================================================================
