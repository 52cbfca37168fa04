------------------------- MODULE FinalResultsTrace -------------------------
EXTENDS FinalResults
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, free, fid, combos
tvars == <<rvars, heap, op, tid, pos, ok, free, fid, combos>>
Tr == Traces[tid]
Ev == Tr[pos]

Read(o) == LET ps == SetOf(o.cosmo) \cup SetOf(o.nuis) IN
           Mk(o.name, SetOf(o.cosmo), SetOf(o.nuis),
              [pq \in ps \X ps |-> LET e == CHOOSE e \in SetOf(o.m) : e[1] = pq[1] /\ e[2] = pq[2] IN [n |-> e[3], d |-> e[4]]])
TraceInit == /\ tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ heap = <<>> /\ op = <<>>
             /\ inputs = [x \in DOMAIN Tr[1].inputs |-> Read(Tr[1].inputs[x])]
             /\ free = SetOf(Tr[1].free) /\ fid = Tr[1].fid /\ combos = Tr[1].combos
             /\ todo = <<>> /\ setting = <<>> /\ res = <<>>

WellFormed(o) == /\ NoDup(o.rows) /\ NoDup(o.cols) /\ SetOf(o.rows) = SetOf(o.cols)
                 /\ SetOf(o.rows) = SetOf(o.cosmo) \cup SetOf(o.nuis)
Same(o, F) == /\ WellFormed(o)
              /\ SetOf(o.cosmo) = F.cosmo /\ SetOf(o.nuis) = F.nuis /\ o.name = F.name
              /\ SetOf(o.m) = {<<pq[1], pq[2], F.m[pq].n, F.m[pq].d>> : pq \in DOMAIN F.m}
Mismatch(mats, exp) ==
    IF DOMAIN mats # DOMAIN exp THEN "names of the results"
    ELSE IF \E x \in DOMAIN exp : ~Same(mats[x], exp[x]) THEN "a result is not what its name and treatment say" ELSE ""
\* squared errors, relative when div
Err(exp, rel) == UNION {
    {LET e2 == MargErr2(exp[x], p)
         f == IF p \in DOMAIN fid THEN [n |-> fid[p][1], d |-> fid[p][2]] ELSE R(1)
         r == IF rel /\ f.n # 0 THEN RDiv(e2, RMul(f, f)) ELSE e2 IN <<x, p, r.n, r.d>> : p \in exp[x].cosmo}
    \cup (IF {"w0", "wa"} \subseteq Pars(exp[x]) THEN LET r == Fom2(exp[x]) IN {<<x, "FoM", r.n, r.d>>} ELSE {}) : x \in DOMAIN exp}
\* relative errors of parameters that are not free in the run are not given
Known(es) == {e \in es : e[2] = "FoM" \/ e[2] \in free}

Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "results" ->
           LET exp == Results(inputs, combos, e.cosmology, e.treatment) IN
           IF e.files # Cardinality(DOMAIN exp) THEN "number of saved matrices"
           ELSE IF Mismatch(e.mats, exp) # "" THEN Mismatch(e.mats, exp)
           ELSE IF SetOf(e.err) # Err(exp, FALSE) THEN "table of marginalised errors"
           ELSE IF Known(SetOf(e.rel)) # Known(Err(exp, TRUE)) THEN "table of relative errors" ELSE ""
      [] e.op = "inputs" -> IF e.same THEN "" ELSE "the input matrices were altered"
      [] e.op = "dirs" -> IF SetOf(e.dirs) = Cosmologies \X Treatments THEN "" ELSE "results directories"
      [] e.op = "readback" ->
           LET all == Results(inputs, combos, e.cosmology, e.treatment)
               exp == [x \in DOMAIN all |-> ReadBack(all[x], free, e.cosmology)] IN
           IF e.out # "ok" THEN "results cannot be read back" ELSE Mismatch(e.mats, exp)
      [] e.op = "addends" ->
           LET base == [x \in DOMAIN inputs |-> inputs[x]]
               unknown == \E i \in DOMAIN e.lists : ~(SetOf(e.lists[i]) \subseteq DOMAIN base)
               sum(l) == FoldLeft(LAMBDA acc, i : Add(acc, base[l[i]]), base[l[1]], [i \in 1..Len(l) - 1 |-> i + 1])
               key(l) == FoldLeft(LAMBDA acc, i : acc \o "+" \o l[i], l[1], [i \in 1..Len(l) - 1 |-> i + 1]) IN
           IF unknown THEN (IF e.out = "ok" THEN "unknown addend accepted" ELSE "")
           ELSE IF e.out # "ok" THEN "sums refused"
           ELSE IF ~e.kept THEN "an addend was altered"
           ELSE Mismatch(e.mats, [k \in {key(e.lists[i]) : i \in DOMAIN e.lists} |->
                                    sum(e.lists[CHOOSE i \in DOMAIN e.lists : key(e.lists[i]) = k])])
      [] e.op = "list" -> IF e.out # "ok" THEN "list of matrices refused" ELSE Mismatch(e.mats, inputs)
      [] e.op = "subset" -> IF e.out # "ok" THEN "subset refused"
                            ELSE Mismatch(e.mats, [x \in SetOf(e.names) |-> inputs[x]])
      [] OTHER -> "unknown event"

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c)
    /\ UNCHANGED <<rvars, heap, op, tid, free, fid, combos>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
