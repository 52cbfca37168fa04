---------------------------- MODULE SpectraTrace ----------------------------
(* Recorded spectra against the specification.  The numbers of real runs have *)
(* long fractions: they are compared as residues modulo two primes.           *)
EXTENDS Rational
Primes == <<46337, 46327>>
Mod(a, p) == a % p
RECURSIVE PowMod(_, _, _)
PowMod(a, e, p) == IF e = 0 THEN 1 ELSE LET h == PowMod((a * a) % p, e \div 2, p) IN IF e % 2 = 1 THEN (a * h) % p ELSE h
InvMod(a, p) == PowMod(a, p - 2, p)
Residues(x) == TLCEval([i \in 1..2 |-> (Mod(x.n, Primes[i]) * InvMod(Mod(x.d, Primes[i]), Primes[i])) % Primes[i]])
FAdd(a, b) == <<(a[1] + b[1]) % Primes[1], (a[2] + b[2]) % Primes[2]>>
FMul(a, b) == <<(a[1] * b[1]) % Primes[1], (a[2] * b[2]) % Primes[2]>>
FInv(a) == <<InvMod(a[1], Primes[1]), InvMod(a[2], Primes[2])>>
INSTANCE Spectra WITH V <- Residues, Add <- FAdd, Mul <- FMul, Inv <- FInv

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, W
tvars == <<tid, pos, ok, W>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ W = [order |-> <<>>]

\* numbers of the field are given as pairs of residues
Shown(e, p) == CHOOSE x \in SetOf(e.weights) : x.p = p
Of(e, p, q) == CHOOSE x \in SetOf(e.spectra) : x.p = p /\ x.q = q
Given(e) == {<<x.p, x.q>> : x \in SetOf(e.spectra)}
Matrix(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> <<m[i][j][1], m[i][j][2]>>]]
SameMatrix(m, f, n1, n2) == /\ Len(m) = n1
                            /\ \A i \in 1..n1 : Len(m[i]) = n2 /\ \A j \in 1..n2 : <<m[i][j][1], m[i][j][2]>> = f[i][j]
Clause(e) ==
    CASE e.op \in {"world", "par", "method", "switch", "cut", "cosmo"} -> ""
      [] e.op = "collect" ->
           IF ~Possible(W) THEN (IF e.out = "ok" THEN "spectra made of what does not fit" ELSE "")
           ELSE IF e.out # "ok" THEN "spectra not computed"
           ELSE IF Given(e) # Pairs(W.order) \/ Len(e.spectra) # Cardinality(Pairs(W.order)) THEN "pairs of probes"
           ELSE IF {x.p : x \in SetOf(e.weights)} # SetOf(W.order) THEN "weight functions"
           ELSE LET ws == AllWeights(W)
                    rule == Rule(W.method, Nz(W))
                    badw == {p \in SetOf(W.order) : ~SameMatrix(Shown(e, p).w, ws[p], Len(W.probes[p].edges) - 1, Nz(W))} IN
                IF badw # {} THEN "weight function of " \o (CHOOSE p \in badw : TRUE)
                ELSE LET wrong(pq) ==
                             LET s == Of(e, pq[1], pq[2])
                                 t == Spectrum(W, rule, ws, pq[1], pq[2]) IN
                             IF SetOf(s.ells) # DOMAIN t \/ ~NoDup(s.ells) \/ Len(s.c) # Len(s.ells) THEN "multipoles of "
                             ELSE IF \E l \in 1..Len(s.ells) : ~SameMatrix(s.c[l], t[s.ells[l]], Len(W.probes[pq[1]].edges) - 1, Len(W.probes[pq[2]].edges) - 1)
                             THEN "spectrum of " ELSE ""
                         bad == {pq \in Pairs(W.order) : wrong(pq) # ""} IN
                     IF bad = {} THEN "" ELSE LET pq == CHOOSE x \in bad : TRUE IN wrong(pq) \o pq[1] \o " and " \o pq[2]
      [] e.op = "density" ->
           IF e.out # "ok" THEN "density not computed"
           ELSE IF ~SameMatrix(e.n, [i \in 1..Len(W.probes[e.p].dens) |-> [k \in 1..Nz(W) |-> Residues(W.probes[e.p].dens[i][k])]],
                               Len(W.probes[e.p].edges) - 1, Nz(W)) THEN "density of a bin" ELSE ""
      [] e.op = "counts" ->
           IF e.out # "ok" THEN "objects not counted"
           ELSE IF e.got # [i \in 1..(Len(e.edges) - 1) |-> Count(e.a, e.b, e.edges[i], e.edges[i + 1])] THEN "objects of a bin" ELSE ""
      [] e.op = "total" ->
           IF e.out # "ok" THEN "objects not counted"
           ELSE IF e.got # RMul(R(e.sky), Count(e.a, e.b, e.lo, e.hi)) THEN "objects in the sky" ELSE ""
      [] e.op = "overlap" ->
           IF e.out # "ok" THEN "objects in common not counted"
           ELSE IF \E i \in 1..(Len(e.edges) - 1), j \in 1..(Len(e.others) - 1) :
                     FMul(Residues(e.got[i][j]), Residues(RMul(e.first[i], Count(e.a, e.b, e.others[j], e.others[j + 1])))) # Residues(Overlap(e.a, e.b, e.edges, e.others, i, j))
                THEN "objects in common of two bins" ELSE ""
      [] OTHER -> "unknown event"
Apply(e) == CASE e.op = "world" -> e.w
              [] e.op = "par" -> [W EXCEPT !.par[e.name] = e.value]
              [] e.op = "method" -> [W EXCEPT !.method = e.method]
              [] e.op = "switch" -> [W EXCEPT ![e.name] = e.on]
              [] e.op = "cosmo" -> [W EXCEPT !.E = e.sky.E, !.rt = e.sky.rt, !.D = e.sky.D, !.A = e.sky.A, !.H0 = e.sky.H0, !.Om = e.sky.Om]
              [] e.op = "cut" -> [W EXCEPT !.kcut = e.kcut, !.kwid = e.kwid]
              [] OTHER -> W
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        /\ IF c = "" THEN (IF pos = Len(Tr) THEN Accept(tid) ELSE TRUE) ELSE Reject(tid, pos, c)
        /\ ok' = (c = "") /\ pos' = pos + 1 /\ W' = IF c = "" THEN Apply(Ev) ELSE W
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
