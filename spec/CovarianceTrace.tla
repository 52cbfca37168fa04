-------------------------- MODULE CovarianceTrace --------------------------
EXTENDS Covariance
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<cvars, tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ cl = {} /\ noise = {} /\ delta = {}

SpecStep(e) ==
    CASE e.op = "load" -> DoLoad(SetOf(e.blocks))
      [] e.op = "file" -> DoNoise(SetOf(e.noise))
      [] e.op = "evaluate" -> DoEvaluate(e.f, e.shot, e.times)
      [] OTHER -> UNCHANGED cvars

Strip(S) == {[a |-> e.a, b |-> e.b, l |-> e.l, x |-> e.x] : e \in S}
Post(e) == Observed(cl, NoiseFor(e.shot, e.times), e.f)

CovClause(e) ==
    IF (e.out = "ok") # Possible(delta, e.dv) THEN "covariance given / refused"
    ELSE IF e.out # "ok" THEN ""
    ELSE LET ls == Up(Ells(delta, e.dv)) IN
         IF e.l # ls THEN "multipoles of the covariance"
         ELSE IF Len(e.m) # Len(ls) THEN "number of matrices"
         ELSE IF \E k \in 1..Len(ls) : e.m[k] # Cov(delta, e.dv, ls[k]) THEN "covariance"
         ELSE ""
Clause(e) ==
    CASE e.op = "load" -> IF e.out # "ok" THEN "spectra refused" ELSE ""
      [] e.op = "file" -> IF e.out # "ok" THEN "noise refused" ELSE ""
      [] e.op = "evaluate" -> IF e.out # "ok" THEN "observed spectra refused"
                              ELSE IF SetOf(e.delta) # Post(e) THEN "observed spectra"
                              ELSE IF SetOf(e.autos) # {c.a : c \in {d \in cl : d.a = d.b}} THEN "blocks of single probes" ELSE ""
      [] e.op = "reload" -> IF SetOf(e.delta) # delta THEN "observed spectra read back"
                            ELSE IF Strip(SetOf(e.cl)) # Strip(cl) THEN "spectra read back" ELSE ""
      [] e.op = "cov" -> CovClause(e)
      [] e.op = "dvec" ->
            LET S == SetOf(e.blocks) IN
            IF e.out # "ok" THEN "derivatives refused"
            ELSE IF e.l # Up(Meeting(S, e.dv)) THEN "multipoles of the derivatives"
            ELSE IF \E k \in 1..Len(e.l) : e.v[k] # Vector(S, e.dv, e.l[k]) THEN "derivatives in the order of the covariance" ELSE ""
      [] e.op = "xc" ->
            IF e.out # "ok" THEN "matrix of all pairs refused"
            ELSE IF e.l # Up(Meet(delta, AllPairs(e.ps))) THEN "multipoles of the matrix of all pairs"
            ELSE IF \E k \in 1..Len(e.l) : e.m[k] # Full(delta, e.ps, e.l[k]) THEN "matrix of all pairs" ELSE ""
      [] OTHER -> "unknown event"

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ SpecStep(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED cvars /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
