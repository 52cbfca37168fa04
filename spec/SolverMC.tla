------------------------------- MODULE SolverMC -------------------------------
EXTENDS Solver
CONSTANTS Limit     \* redshifts CAMB takes at a time
F(n, d) == Norm(n, d)
Base == [h |-> F(1, 2), Omm |-> F(1, 2), OmDE |-> F(1, 2), Omb |-> F(1, 4), w0 |-> R(-1), wa |-> R(0), ns |-> R(1), sigma8 |-> F(3, 4),
         mnu |-> F(1, 64)]
Open == [Base EXCEPT !.Omm = F(1, 4), !.Omb = F(1, 8), !.w0 = F(-2, 3), !.wa = F(1, 3), !.h = F(3, 4)]
Dust == [Base EXCEPT !.Omm = R(1), !.OmDE = R(0)]
Odd == [Base EXCEPT !.w0 = F(5, 6), !.wa = F(-3, 2)]
Worlds == {<<Base, TRUE>>, <<Open, FALSE>>, <<Dust, TRUE>>, <<Dust, FALSE>>, <<Odd, TRUE>>, <<[Base EXCEPT !.w0 = R(1)], TRUE>>,
           <<[Base EXCEPT !.Omm = F(2, 3), !.OmDE = F(1, 3)], TRUE>>}
Steps == {F(1, 3), F(-1, 3), F(1, 8), F(-1, 8), F(1, 2)}
Jobs == {[P |-> w[1], flat |-> w[2], dvar |-> "central", e |-> R(0)] : w \in Worlds}
        \cup {[P |-> w[1], flat |-> w[2], dvar |-> v, e |-> e] : w \in Worlds, v \in DOMAIN Base, e \in Steps}
Cur(j) == Current(j.P, j.flat, j.dvar, j.e)
Ok(j) == Accepted(j.P, Cur(j), j.flat)

\* evaluation with CAMB: the amplitude is tuned, then the grid 1..n is solved piecewise
VARIABLES job, n, off, amp, done, phase
vars == <<job, n, off, amp, done, phase>>
Init == /\ job \in Jobs /\ n \in 1..3 * Limit /\ off \in {0, 2}
        /\ amp = 0 /\ done = <<>> /\ phase = IF Ok(job) THEN "tune" ELSE "refused"
        /\ job.dvar # "central" => n = 1 /\ off = 0
\* off: attempts until the spectrum has the sigma8 asked for
Tune == /\ phase = "tune"
        /\ IF amp = off THEN phase' = "solve" /\ UNCHANGED amp ELSE amp' = amp + 1 /\ UNCHANGED phase
        /\ UNCHANGED <<job, n, off, done>>
Covered == IF done = <<>> THEN 0 ELSE Last(done).to
Solve == /\ phase = "solve" /\ Covered < n
         /\ \E k \in 1..Limit : Covered + k <= n /\ done' = Append(done, [from |-> Covered + 1, to |-> Covered + k, amp |-> amp])
         /\ UNCHANGED <<job, n, off, amp, phase>>
Store == phase = "solve" /\ Covered = n /\ phase' = "stored" /\ UNCHANGED <<job, n, off, amp, done>>
Next == Tune \/ Solve \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Tuned == \A i \in DOMAIN done : done[i].amp = off /\ done[i].to - done[i].from < Limit
WholeGrid == phase = "stored" => Concat([i \in DOMAIN done |-> [k \in 1..done[i].to - done[i].from + 1 |-> done[i].from + k - 1]])
                                 = [i \in 1..n |-> i]
Ends == <>(phase \in {"stored", "refused"})

\* of all jobs: the matter asked for is that of the cosmology, flat ones stay flat, and no two cosmologies are confused
Consistent == LET c == Cur(job)
                  q == OfCAMB(c)
                  k == OfCLASS(c) IN
    /\ RAdd(q.ombh2, RAdd(q.omch2, q.omnuh2)) = RMul(c.Omm, Sq(c.h))
    /\ (job.flat /\ RAdd(job.P.Omm, job.P.OmDE) = R(1)) => q.omk = R(0) /\ k.Omega_k = R(0)
    /\ RAdd(k.Omega_b, RAdd(k.Omega_cdm, RAdd(RDiv(k.m_ncdm, Sq(k.h)), RAdd(k.Omega_k, k.Omega_fld)))) = R(1)
    /\ Simple(c) => Square(c, R(0)) = R(1)
OneQuestionEach == (job.dvar = "central" /\ n = 1 /\ off = 0) =>
    LET cs == {Cur(j) : j \in {x \in Jobs : x.P = job.P /\ x.flat = job.flat}} IN
    /\ Cardinality({OfCLASS(c) : c \in cs}) = Cardinality(cs)
    /\ Cardinality({<<OfCAMB(c), c.sigma8>> : c \in cs}) = Cardinality(cs)
OnlyOwn == LET c == Cur(job) IN \A x \in DOMAIN c : (c[x] # job.P[x]) => x = job.dvar \/ (job.flat /\ {x, job.dvar} = {"Omm", "OmDE"})

\* what is expected of each job
ASSUME \A j \in Jobs : Out("J", [job |-> j, ok |-> Ok(j), current |-> Cur(j), camb |-> OfCAMB(Cur(j)), class |-> OfCLASS(Cur(j)),
                                 terms |-> Terms(Cur(j))])
\* rescaling
Lins == {<<<<4, 2>>, <<1, 3>>>>, <<<<9, 1>>, <<4, 5>>, <<1, 1>>>>}
ASSUME \A l \in Lins : \A g \in [DOMAIN l -> {F(1, 4), R(1), F(4, 9)}] :
    LET lin == [i \in DOMAIN l |-> [j \in DOMAIN l[i] |-> R(l[i][j])]]
        non == [i \in DOMAIN l |-> [j \in DOMAIN l[i] |-> R(l[i][j] + i * j)]]
        gr == [i \in DOMAIN g |-> g[i]] IN
    Out("G", [lin |-> lin, non |-> non, gs |-> gr, own |-> GrowthSq(l), lin2 |-> Rescaled(lin, lin, gr), non2 |-> Rescaled(lin, non, gr)])
=============================================================================
