-------------------------------- MODULE Solver --------------------------------
(* Power spectra of a job: the cosmology of its (parameter, step), what the    *)
(* Boltzmann solver is asked for, and what is stored.                          *)
(* mnu is given in units of 93.14 eV.                                          *)
EXTENDS Rational

\* P: name -> fiducial; e: relative displacement (absolute for a vanishing fiducial)
Displaced(f, e) == IF f = R(0) THEN e ELSE RAdd(f, RMul(f, e))
Current(P, flat, dvar, e) ==
    IF dvar = "central" THEN P
    ELSE LET v == Displaced(P[dvar], e) IN
         [n \in DOMAIN P |-> IF n = dvar THEN v
                             ELSE IF flat /\ {n, dvar} = {"Omm", "OmDE"} THEN RSub(R(1), v) ELSE P[n]]
\* accepted cosmologies
Less(a, b) == RPos(RSub(b, a))
AbsR(a) == [n |-> Abs(a.n), d |-> a.d]
Curv(c) == RSub(R(1), RAdd(c.Omm, c.OmDE))
Accepted(P, c, flat) == /\ Less(P.w0, R(1)) /\ Less(c.w0, R(1))
                        /\ Less(AbsR(P.wa), R(2)) /\ Less(AbsR(c.wa), R(2))
                        /\ flat => Curv(c) = R(0)

\* what each solver is asked for
Sq(x) == RMul(x, x)
OfCAMB(c) == [hubble |-> RMul(R(100), c.h), w |-> c.w0, wa |-> c.wa, scalar_spectral_index |-> c.ns,
              ombh2 |-> RMul(c.Omb, Sq(c.h)), omnuh2 |-> c.mnu,
              omch2 |-> RSub(RSub(RMul(c.Omm, Sq(c.h)), RMul(c.Omb, Sq(c.h))), c.mnu), omk |-> Curv(c)]
OfCLASS(c) == [h |-> c.h, w0_fld |-> c.w0, wa_fld |-> c.wa, n_s |-> c.ns, sigma8 |-> c.sigma8, m_ncdm |-> c.mnu,
               Omega_b |-> c.Omb, Omega_cdm |-> RSub(RSub(c.Omm, c.Omb), RDiv(c.mnu, Sq(c.h))),
               Omega_k |-> Curv(c), Omega_fld |-> c.OmDE]
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN R(1) ELSE IF n < 0 THEN RInv(RPow(x, -n)) ELSE RMul(x, RPow(x, n - 1))

\* the square of the dimensionless expansion rate is the sum of a (1 + z)^p exp(x z / (1 + z))
Dark(c) == RMul(R(3), RAdd(R(1), RAdd(c.w0, c.wa)))
Terms(c) == <<[a |-> c.Omm, p |-> R(3), x |-> R(0)], [a |-> c.OmDE, p |-> Dark(c), x |-> RMul(R(-3), c.wa)],
              [a |-> Curv(c), p |-> R(2), x |-> R(0)]>>
Simple(c) == c.wa = R(0) /\ Dark(c).d = 1
Square(c, z) == LET y == RAdd(R(1), z) IN RSum([i \in 1..3 |-> RMul(Terms(c)[i].a, RPow(y, Terms(c)[i].p.n))])

\* a request to CAMB: [rest: other settings, asked, amp: which amplitude]
GoodRequest(q, ref, c) == q.rest = ref /\ q.asked = OfCAMB(c)
Concat(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)
\* growth is the square root of the linear spectrum relative to that of the first redshift
GrowthSq(lin) == [i \in DOMAIN lin |-> Norm(lin[i][1], lin[1][1])]
\* spectra rescaled to another growth g (squared: gs); the own growth of lin is the one above
Rescaled(lin, m, gs) == [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> RMul(m[i][j], RDiv(gs[i], RDiv(lin[i][1], lin[1][1])))]]
=============================================================================
