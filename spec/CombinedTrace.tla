--------------------------- MODULE CombinedTrace ---------------------------
EXTENDS Combined
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<cvars, fvars, tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ recorded = {} /\ files = {} /\ cl = {} /\ noise = {} /\ delta = {}

W == LET e == Tr[1] IN
     [S |-> SetOf(e.S), cosmo |-> e.cosmo, nuis |-> [p \in {r.p : r \in SetOf(e.nuis)} |-> (CHOOSE r \in SetOf(e.nuis) : r.p = p).probe],
      der |-> [p \in {r.p : r \in SetOf(e.der)} |-> SetOf((CHOOSE r \in SetOf(e.der) : r.p = p).blocks)]]

SpecStep(e) ==
    /\ UNCHANGED cvars
    /\ CASE e.op = "stage" -> DoStage(e.dvs)
         [] e.op = "forget" -> DoForget
         [] e.op = "remove" -> DoRemove(e.dv)
         [] OTHER -> UNCHANGED fvars

\* an observed matrix: labels of rows and columns, and entries
SameAs(o, F, ps) ==
    IF SetOf(o.rows) # ps \/ Len(o.rows) # Cardinality(ps) \/ SetOf(o.cols) # ps \/ Len(o.cols) # Cardinality(ps) THEN "labels of a Fisher matrix"
    ELSE IF \E r \in SetOf(o.m) : F[<<r.p, r.q>>] # [n |-> r.v[1], d |-> r.v[2]] THEN "elements of a Fisher matrix"
    ELSE IF Len(o.m) # Cardinality(ps) * Cardinality(ps) THEN "number of elements of a Fisher matrix" ELSE ""
Matrix(dv, o) == LET c == SameAs(o, Fisher(W, dv), Relevant(W, dv)) IN
    IF c # "" THEN c
    ELSE IF SetOf(o.cosmo) # SetOf(W.cosmo) \/ SetOf(o.nuis) # Relevant(W, dv) \ SetOf(W.cosmo) THEN "kinds of the parameters" ELSE ""
RECURSIVE FirstBad(_)
FirstBad(ms) == IF ms = <<>> THEN "" ELSE LET c == Matrix(ms[1].dv, ms[1]) IN IF c # "" THEN c ELSE FirstBad(Tail(ms))

Clause(e) ==
    CASE e.op = "world" -> ""
      [] e.op = "stage" ->
            LET o == Outcome(recorded, files, e.dvs) IN
            IF (e.out = "ok") # (o.out = "ok") THEN "stage completed / refused"
            ELSE IF SetOf(e.files) # o.files THEN "matrices written"
            ELSE IF {m.dv : m \in SetOf(e.matrices)} # o.files \ files THEN "matrices computed"
            ELSE FirstBad(e.matrices)
      [] e.op \in {"forget", "remove"} -> ""
      \* contributions of one multipole, in memory, single or joint
      [] e.op = "ell" ->
            IF SetOf(e.l) # Ells(W.S, e.dv) THEN "multipoles of the contributions"
            ELSE LET F == Contribution(W, e.dv, e.at) IN
                 IF {<<r.p, r.q>> : r \in SetOf(e.m)} # DOMAIN F THEN "labels of the contributions"
                 ELSE IF \E r \in SetOf(e.m) : F[<<r.p, r.q>>] # [n |-> r.v[1], d |-> r.v[2]] THEN "contribution of a multipole" ELSE ""
      \* derivatives of another origin
      [] e.op = "other" ->
            LET D == [p \in {r.p : r \in SetOf(e.der)} |-> SetOf((CHOOSE r \in SetOf(e.der) : r.p = p).blocks)] IN
            IF (e.out = "ok") # Matching(W, D, e.dv) THEN "derivatives on other multipoles" ELSE ""
      [] OTHER -> "unknown event"

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ SpecStep(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED <<cvars, fvars>> /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
