-------------------------- MODULE MultipolesTrace --------------------------
EXTENDS Multipoles
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<mvars, tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ cfg = [p \in 1..4 |-> Absent]

SpecStep(e) == IF e.op = "edit" THEN DoEdit(e.p, e.g) ELSE UNCHANGED cfg

Clause(e) ==
    CASE e.op = "edit" -> ""
      [] e.op = "load" ->
            IF (e.out = "ok") # Usable(cfg) THEN "grid accepted / refused"
            ELSE IF e.out = "ok" /\ SetOf(e.present) # Present(cfg) THEN "probes present" ELSE ""
      [] e.op = "grid" -> IF e.rows # Rows(cfg[e.p]) THEN "multipoles of a probe" ELSE ""
      [] e.op = "pair" ->
            LET w == PairOut(cfg[e.a], cfg[e.b]) IN
            IF (e.out = "ok") # (w = "ok") THEN "pair accepted / refused"
            ELSE IF w = "ok" /\ e.rows # PairRows(cfg[e.a], cfg[e.b]) THEN "multipoles of a pair" ELSE ""
      [] e.op = "check" -> IF (e.out = "ok") # Compatible(cfg) THEN "compatibility of the probes" ELSE ""
      [] e.op = "alone" -> IF e.out # "ok" THEN "contribution of a probe alone refused"
                           ELSE IF SetOf(e.l) # Alone(cfg, SetOf(e.s), e.p) \/ Len(e.l) # Cardinality(SetOf(e.l)) THEN "multipoles of a probe alone" ELSE ""
      [] e.op = "common" -> IF e.l # SetToSortSeq(Common(cfg, SetOf(e.s)), <) THEN "common multipoles of a data vector" ELSE ""
      [] OTHER -> "unknown event"

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ SpecStep(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED mvars /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
