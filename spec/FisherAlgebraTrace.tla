------------------------- MODULE FisherAlgebraTrace -------------------------
EXTENDS FisherAlgebra
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<fvars, tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]

TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ heap = <<>> /\ op = <<>>

\* a matrix as observed
Read(o) == LET ps == SetOf(o.cosmo) \cup SetOf(o.nuis) IN
           Mk(o.name, SetOf(o.cosmo), SetOf(o.nuis),
              [pq \in ps \X ps |-> LET e == CHOOSE e \in SetOf(o.m) : e[1] = pq[1] /\ e[2] = pq[2] IN [n |-> e[3], d |-> e[4]]])
WellFormed(o) == /\ NoDup(o.rows) /\ NoDup(o.cols) /\ SetOf(o.rows) = SetOf(o.cols)
                 /\ SetOf(o.rows) = SetOf(o.cosmo) \cup SetOf(o.nuis)
Same(o, F) == /\ WellFormed(o)
              /\ SetOf(o.cosmo) = F.cosmo /\ SetOf(o.nuis) = F.nuis /\ o.name = F.name
              /\ SetOf(o.m) = {<<pq[1], pq[2], F.m[pq].n, F.m[pq].d>> : pq \in DOMAIN F.m}

S(e) == SetOf(e.set)
Unknown(e) == ~(S(e) \subseteq Pars(heap[e.x]))
\* the heap after the operation
After(e) ==
    CASE e.op = "make" -> [x \in DOMAIN heap \cup {e.z} |-> IF x = e.z THEN Read(e.obs[e.z]) ELSE heap[x]]
      [] e.op \in {"errors", "unmarg", "corr", "eq", "setup"} -> heap
      [] OTHER ->
         LET F == heap[e.x]
             k == IF e.z = "" THEN e.x ELSE e.z
             res == CASE e.op = "add" -> Add(F, heap[e.y])
                      [] e.op = "sub" -> Sub(F, heap[e.y])
                      [] e.op = "copy" -> F
                      [] e.op = "fix" -> (IF Unknown(e) THEN F ELSE Fix(F, S(e)))
                      [] e.op = "marg" -> (IF Unknown(e) THEN F ELSE Marg(F, S(e)))
                      [] e.op = "margnuis" -> (IF e.flag THEN Marg(F, F.nuis) ELSE F)
                      [] e.op = "select" -> (IF e.flag THEN F ELSE Fix(F, F.nuis))
                      [] e.op = "restrict" -> (IF Unknown(e) THEN F ELSE Keep(F, S(e)))
                      [] e.op = "prior" -> (IF Unknown(e) THEN F ELSE FoldLeft(LAMBDA acc, i : Prior(acc, e.set[i], [n |-> e.w[i][1], d |-> e.w[i][2]]),
                                                    F, [i \in DOMAIN e.set |-> i]))
                      [] e.op = "invert" -> F
         IN IF e.op \in {"fix", "marg", "restrict", "prior"} /\ Unknown(e) THEN heap
            ELSE [x \in DOMAIN heap \cup {k} |-> IF x = k THEN res ELSE heap[x]]

Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "make" -> IF ~WellFormed(e.obs[e.z]) THEN "labels of a new matrix" ELSE
                          IF SetOf(e.given) # SetOf(e.obs[e.z].m) THEN "entries of a new matrix" ELSE
                          IF \E x \in DOMAIN heap : x # e.z /\ ~Same(e.obs[x], heap[x]) THEN "another matrix changed" ELSE ""
      [] e.op = "errors" ->
            IF e.out # "ok" THEN "no marginalised errors"
            ELSE IF {s[1] : s \in SetOf(e.sig2)} # (IF e.only_cosmo THEN heap[e.x].cosmo ELSE Pars(heap[e.x])) THEN "parameters with marginalised errors"
            ELSE IF \E s \in SetOf(e.sig2) : [n |-> s[2], d |-> s[3]] # MargErr2(heap[e.x], s[1]) THEN "marginalised error"
            ELSE IF (e.fom2 # <<>>) # ({"w0", "wa"} \subseteq Pars(heap[e.x])) THEN "figure of merit present or absent"
            ELSE IF e.fom2 # <<>> /\ [n |-> e.fom2[1], d |-> e.fom2[2]] # Fom2(heap[e.x]) THEN "figure of merit" ELSE ""
      [] e.op = "unmarg" ->
            IF e.out # "ok" THEN "no unmarginalised errors"
            ELSE IF {s[1] : s \in SetOf(e.sig2)} # (IF e.only_cosmo THEN heap[e.x].cosmo ELSE Pars(heap[e.x])) THEN "parameters with unmarginalised errors"
            ELSE IF \E s \in SetOf(e.sig2) : [n |-> s[2], d |-> s[3]] # Err2(heap[e.x], s[1]) THEN "unmarginalised error" ELSE ""
      [] e.op = "corr" ->
            IF e.out # "ok" THEN "no correlations"
            ELSE IF {<<s[1], s[2]>> : s \in SetOf(e.c)} # heap[e.x].cosmo \X heap[e.x].cosmo THEN "parameters with correlations"
            ELSE IF \E s \in SetOf(e.c) : [n |-> s[3], d |-> s[4]] # Corr2(heap[e.x], s[1], s[2]) THEN "correlation" ELSE ""
      [] e.op = "eq" -> IF e.r # (heap[e.x].name = heap[e.y].name /\ Pars(heap[e.x]) = Pars(heap[e.y]) /\ heap[e.x].m = heap[e.y].m)
                        THEN "equality of Fisher matrices" ELSE ""
      [] OTHER ->
            LET h == After(e) IN
            IF e.op \in {"fix", "marg", "restrict", "prior"} /\ Unknown(e) /\ e.out = "ok" THEN "unknown parameters accepted"
            ELSE IF ~(e.op \in {"fix", "marg", "restrict", "prior"} /\ Unknown(e)) /\ e.out # "ok" THEN "operation refused: " \o e.op
            ELSE IF \E x \in DOMAIN h : ~WellFormed(e.obs[x]) THEN "labels inconsistent after " \o e.op
            ELSE IF \E x \in DOMAIN h : x # (IF e.z = "" THEN e.x ELSE e.z) /\ ~Same(e.obs[x], h[x]) THEN "an operand or another matrix changed by " \o e.op
            ELSE IF \E x \in DOMAIN h : ~Same(e.obs[x], h[x]) THEN "result of " \o e.op ELSE ""

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ heap' = After(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED heap /\ Reject(tid, pos, c)
    /\ UNCHANGED <<tid, op>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
