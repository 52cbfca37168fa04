------------------------------ MODULE Combined ------------------------------
(* P13.  Fisher matrices of data vectors: the joint contribution of the
   multipoles all spectra share, plus what each probe of the data vector
   contributes alone on its other multipoles.

   A world W holds the observed spectra S, the derivative of every spectrum
   with respect to every parameter, the free cosmological parameters and the
   probe of every free nuisance parameter.                                  *)
EXTENDS Covariance, Rational

VARIABLES recorded, files
(* recorded: probes whose single-probe contributions per multipole are on record;
   files: data vectors whose matrix has been written *)
fvars == <<recorded, files>>

Own(dv) == {dv[k][1] : k \in {m \in 1..Len(dv) : dv[m][1] = dv[m][2]}}
Touched(dv) == UNION {{dv[k][1], dv[k][2]} : k \in 1..Len(dv)}
Single(dv) == Len(dv) = 1 /\ dv[1][1] = dv[1][2]
Relevant(W, dv) == SetOf(W.cosmo) \cup {p \in DOMAIN W.nuis : W.nuis[p] \in Touched(dv)}

\* quadratic forms -v_p X^-1 v_q, by eliminating X from [[X, V], [V', 0]]
ElimAt(m, keep, b) == TLCEval([pq \in keep \X keep |->
    IF m[<<pq[1], b>>].n = 0 \/ m[<<b, pq[2]>>].n = 0 THEN m[pq]
    ELSE RSub(m[pq], RDiv(RMul(m[<<pq[1], b>>], m[<<b, pq[2]>>]), m[<<b, b>>]))])
RECURSIVE Eliminate(_, _, _)
Eliminate(m, keep, k) == IF k = 0 THEN m ELSE Eliminate(ElimAt(m, keep \ {<<"", k>>}, <<"", k>>), keep \ {<<"", k>>}, k - 1)

\* contribution of multipole l
Contribution(W, dv, l) ==
    LET X == TLCEval(Cov(W.S, dv, l))
        n == Len(X)
        ps == Relevant(W, dv)
        v == TLCEval([p \in ps |-> Vector(W.der[p], dv, l)])
        idx == {<<"", k>> : k \in 1..n} \cup {<<p, 0>> : p \in ps}
        m == TLCEval([pq \in idx \X idx |->
                CASE pq[1][2] > 0 /\ pq[2][2] > 0 -> R(X[pq[1][2]][pq[2][2]])
                  [] pq[1][2] > 0 /\ pq[2][2] = 0 -> R(v[pq[2][1]][pq[1][2]])
                  [] pq[1][2] = 0 /\ pq[2][2] > 0 -> R(v[pq[1][1]][pq[2][2]])
                  [] OTHER -> R(0)])
        q == Eliminate(m, idx, n) IN
    TLCEval([pq \in ps \X ps |-> RMul(R(-Modes(l)), q[<< <<pq[1], 0>>, <<pq[2], 0>> >>])])

\* derivatives D can be used for a data vector when the multipoles its spectra share are those of the covariance
Matching(W, D, dv) == \A p \in Relevant(W, dv) : Meet(D[p], SetOf(dv)) = Ells(W.S, dv)

Zero(ps) == [pq \in ps \X ps |-> R(0)]
Plus(f, g) == TLCEval([pq \in DOMAIN f |-> IF pq \in DOMAIN g THEN RAdd(f[pq], g[pq]) ELSE f[pq]])
Over(W, dv, ls, ps) == FoldLeft(LAMBDA acc, l : Plus(acc, Contribution(W, dv, l)), Zero(ps), Up(ls))
Auto(p) == << <<p, p>> >>
AloneOn(W, dv, p) == SetOf(Grid(W.S, p, p)) \ Ells(W.S, dv)
Joint(W, dv) == Over(W, dv, Ells(W.S, dv), Relevant(W, dv))
Fisher(W, dv) == IF Single(dv) THEN Joint(W, dv)
                 ELSE FoldSet(LAMBDA p, acc : Plus(acc, Over(W, Auto(p), AloneOn(W, dv, p), Relevant(W, Auto(p)))),
                              Joint(W, dv), Own(dv))

\* ---------------------------------------------------------------- the Fisher stage
(* data vectors are computed in turn; the first that lacks a single-probe result ends the stage *)
RECURSIVE Outcome(_, _, _)
Outcome(rec, fs, dvs) ==
    IF dvs = <<>> THEN [out |-> "ok", rec |-> rec, files |-> fs]
    ELSE LET dv == dvs[1] IN
         IF dv \in fs THEN Outcome(rec, fs, Tail(dvs))
         ELSE IF Single(dv) THEN Outcome(rec \cup Own(dv), fs \cup {dv}, Tail(dvs))
         ELSE IF Own(dv) \subseteq rec THEN Outcome(rec, fs \cup {dv}, Tail(dvs))
         ELSE [out |-> "refused", rec |-> rec, files |-> fs]
DoStage(dvs) == LET o == Outcome(recorded, files, dvs) IN recorded' = o.rec /\ files' = o.files
DoForget == recorded' = {} /\ UNCHANGED files        \* the record of single-probe contributions is lost
DoRemove(dv) == files' = files \ {dv} /\ UNCHANGED recorded
=============================================================================
