-------------------------------- MODULE Import --------------------------------
(* Results of other groups: tables of power spectra and angular spectra per     *)
(* cosmology, tables of Fisher matrices, and the change of parameters used to   *)
(* compare them.                                                                *)
EXTENDS Rational

\* names used by others -> ours
Theirs == [Ob |-> "Omb", Ode |-> "OmDE", Om |-> "Omm", h |-> "h", ns |-> "ns", s8 |-> "sigma8", w0 |-> "w0", wa |-> "wa"]
Eps == <<Norm(1, 160), Norm(1, 80), Norm(3, 160), Norm(1, 40), Norm(3, 80), Norm(1, 20), Norm(1, 10)>>
Central == [dvar |-> "central", step |-> 0]
\* f: <<>> (fiducial) or [par, minus, eps: position]
Job(f) == IF f = <<>> THEN Central ELSE [dvar |-> Theirs[f.par], step |-> IF f.minus THEN -f.eps ELSE f.eps]
Shift(j) == IF j.step < 0 THEN RNeg(Eps[-j.step]) ELSE Eps[j.step]
\* parameters of a job; relative displacement, absolute from zero
Pars(P, flat, j) ==
    IF j = Central THEN P
    ELSE LET v == IF P[j.dvar] = R(0) THEN Shift(j) ELSE RMul(P[j.dvar], RAdd(R(1), Shift(j))) IN
         [n \in DOMAIN P |-> IF n = j.dvar THEN v ELSE IF flat /\ {n, j.dvar} = {"Omm", "OmDE"} THEN RSub(R(1), v) ELSE P[n]]

\* table of spectra: sequence of [z, k, lin, non], k in h/Mpc and spectra in (Mpc/h)^3; ours without h, and without today
Zs(tab) == {r.z : r \in SetOf(tab)} \ {R(0)}
Ks(tab) == {r.k : r \in SetOf(tab)}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : RPos(RSub(b, a)))
Row(tab, z, k) == CHOOSE r \in SetOf(tab) : r.z = z /\ r.k = k
PerCube(x, h) == RDiv(RDiv(RDiv(x, h), h), h)
Spectrum(tab, h) == LET zs == Sorted(Zs(tab))
                        ks == Sorted(Ks(tab)) IN
    [z |-> zs, k |-> MapSeq(LAMBDA k : RMul(k, h), ks),
     lin |-> [i \in DOMAIN zs |-> [j \in DOMAIN ks |-> PerCube(Row(tab, zs[i], ks[j]).lin, h)]],
     non |-> [i \in DOMAIN zs |-> [j \in DOMAIN ks |-> PerCube(Row(tab, zs[i], ks[j]).non, h)]]]

\* angular spectra: columns labelled by pairs of bins, counted from 0 or 1
\* (pairs: as read; rows: l -> values in the order of the pairs)
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
Firsts(pairs) == {pairs[i][1] : i \in DOMAIN pairs}
Seconds(pairs) == {pairs[i][2] : i \in DOMAIN pairs}
From(pairs) == CHOOSE x \in Firsts(pairs) : \A y \in Firsts(pairs) : x <= y
Bins(S, from) == Max2(S) - from + 1
Columns(pairs, row, same) ==
    LET f == From(pairs)
        n == Bins(Firsts(pairs), f)
        m == Bins(Seconds(pairs), f)
        at(a, b) == row[CHOOSE i \in DOMAIN pairs : pairs[i] = <<a, b>>]
        has(a, b) == \E i \in DOMAIN pairs : pairs[i] = <<a, b>>
        val(a, b) == IF has(a, b) THEN at(a, b) ELSE IF same /\ has(b, a) THEN at(b, a) ELSE 0 IN
    \* the probe with more bins comes first
    IF n < m THEN [j \in 1..m |-> [i \in 1..n |-> val(i - 1 + f, j - 1 + f)]]
    ELSE [i \in 1..n |-> [j \in 1..m |-> val(i - 1 + f, j - 1 + f)]]

\* tables of Fisher matrices
Ours(c) == CASE c = "Omegam" -> "Omm" [] c = "Omegab" -> "Omb" [] c = "Omegade" -> "OmDE"
             [] \E i \in 1..20 : c = "b" \o ToString(i) -> "bgph" \o ToString((CHOOSE i \in 1..20 : c = "b" \o ToString(i)) - 1)
             [] OTHER -> c
Read(cols, rows) == LET names == MapSeq(Ours, cols) IN
    TLCEval([pq \in SetOf(names) \X SetOf(names) |-> rows[PosOf(pq[1], names)][PosOf(pq[2], names)]])
Title(s) == CASE s = "WL" -> "[WL]" [] s = "GCph" -> "[GCph]" [] s = "GCsp" -> "[GCsp(Pk)]" [] s = "GCph_WL_XC" -> "[WL+GCph+XC(WL,GCph)]"
              [] s = "GCsp_GCph_WL_XC" -> "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]" [] OTHER -> "none"

\* change of parameters: of the galaxy biases b_i to b_i sigma8 (others unchanged), and back without the biases
IsBias(p) == Len(p) > 2 /\ SubSeq(p, 1, 2) = "bg"
New(p) == IF IsBias(p) THEN p \o "_sigma8" ELSE p
\* J[p, q] = d p / d New(q) at the fiducial
J1(names, fid) == [pq \in names \X names |->
    LET p == pq[1]
        q == pq[2] IN
    IF p = q THEN IF IsBias(p) THEN RInv(fid["sigma8"]) ELSE R(1)
    ELSE IF IsBias(p) /\ q = "sigma8" THEN RNeg(RDiv(fid[p], fid["sigma8"])) ELSE R(0)]
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : RAdd(f(x), a), R(0), S)
\* J^T m J, names -> to
Cong(m, J, names, to) == TLCEval([xy \in to \X to |->
    SumOver(names, LAMBDA p : SumOver(names, LAMBDA q : RMul(RMul(J[<<p, xy[1]>>], m[<<p, q>>]), J[<<q, xy[2]>>])))])
First(m, names, fid) == Cong(m, J1(names, fid), names, names)            \* by the old names
WithoutS8(m, names, fid) == LET f == First(m, names, fid)
                                rest == names \ {"sigma8"} IN [pq \in rest \X rest |-> f[pq]]
\* J2[p, q] = d New(p) / d q for the cosmological q
J2(names, fid) == [pq \in (names \ {"sigma8"}) \X {q \in names : ~IsBias(q)} |->
    IF pq[1] = pq[2] THEN R(1) ELSE IF IsBias(pq[1]) /\ pq[2] = "sigma8" THEN fid[pq[1]] ELSE R(0)]
Second(m, names, fid) == Cong(WithoutS8(m, names, fid), J2(names, fid), names \ {"sigma8"}, {q \in names : ~IsBias(q)})

\* errors and their differences in percent from the mean or median of the codes
Fish == INSTANCE FisherAlgebra WITH heap <- 0, op <- 0
Mean(S) == RDiv(SumOver(DOMAIN S, LAMBDA i : S[i]), R(Len(S)))
Median(S) == LET s == SortSeq(S, LAMBDA a, b : RPos(RSub(b, a)))
                 n == Len(s) IN
             IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE RDiv(RAdd(s[n \div 2], s[n \div 2 + 1]), R(2))
Delta(x, ref) == RMul(R(100), RDiv(RSub(x, ref), ref))
=============================================================================
