--------------------------- MODULE JobDirsTrace ---------------------------
EXTENDS JobDirs
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<vars, jvars, tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]
U == Tr[1].params          \* parameter names of the run
N == Tr[1].n               \* stencil length
Uset == SetOf(U)

TraceInit ==
    /\ tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE
    /\ have = {} /\ query = "none"
    /\ par = Tr[1].par /\ disps = Tr[1].disps /\ flat = Tr[1].flat
    /\ cur = [p \in DOMAIN Tr[1].par |-> Fid(p)] /\ moved = {} /\ dirty = FALSE /\ act = "none"

SpecStep(e) ==
    CASE e.op = "mkdir" -> /\ IF NamesPair(e.name, Uset, N)
                              THEN LET a == PairOf(e.name, Uset, N) IN
                                   IF Exists(e.st, a[1], a[2]) THEN UNCHANGED have ELSE MakeDir(e.st, a[1], a[2])
                              ELSE UNCHANGED have
                           /\ UNCHANGED vars /\ UNCHANGED query
      [] e.op = "mkder" -> MakeDir("der", e.p, 0) /\ UNCHANGED vars /\ UNCHANGED query
      [] e.op = "put" -> PutFile(e.st, e.p, e.k, e.n) /\ UNCHANGED vars /\ UNCHANGED query
      [] e.op = "drop" -> Drop(e.st, e.p, e.k) /\ UNCHANGED vars /\ UNCHANGED query
      [] OTHER -> (UNCHANGED vars /\ UNCHANGED jvars)

\* the values the job of (p,k) has to work with
Expected(p, k) ==
    IF k = 0 \/ p = "central" THEN [q \in Names |-> Fid(q)]
    ELSE IF flat /\ p \in Coupled
         THEN [q \in Names |-> IF q = p THEN Displaced(p, k) ELSE IF q = Partner(p) THEN One - Displaced(p, k) ELSE Fid(q)]
         ELSE [q \in Names |-> IF q = p THEN Displaced(p, k) ELSE Fid(q)]
CosmoExpected(p, k) ==
    IF p # "central" /\ ~par[p].cosmo THEN [q \in CosmoNames |-> Fid(q)]
    ELSE [q \in CosmoNames |-> Expected(p, k)[q]]

Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "mkdir" -> IF ~NamesPair(e.name, Uset, N) THEN "directory name stands for no variation of this run"
                           ELSE IF PairOf(e.name, Uset, N) # <<e.p, e.k>> THEN "directory name stands for another variation" ELSE ""
      [] e.op = "parse" -> IF <<e.p, e.k>> # PairOf(e.name, Uset, N) THEN "name read back as another (parameter, step)" ELSE ""
      [] e.op \in {"mkder", "put", "drop"} -> ""
      [] e.op = "listing" ->
            IF {<<v[1], v[2]>> : v \in SetOf(e.vars)} # Variations \/ Len(e.vars) # Cardinality(Variations) THEN "list of angular variations"
            ELSE IF \E v \in SetOf(e.vars) : v[3] # DirName(v[1], v[2]) THEN "variation listed with another directory"
            ELSE IF SetOf(e.clparams) # ClParams THEN "parameters with angular variations"
            ELSE IF SetOf(e.pmmparams) # PmmParams THEN "parameters with power-spectrum directories"
            ELSE IF SetOf(e.derparams) # DerParams THEN "parameters with derivatives"
            ELSE ""
      [] e.op = "samples" -> IF e.steps # Samples(e.p) THEN "samples of a parameter, in step order" ELSE ""
      [] e.op = "clfile" -> IF e.out # FileOf("cl", e.p, e.k) THEN "lookup of a spectra file"
                            ELSE IF e.out = "found" /\ e.dir # DirName(e.p, e.k) THEN "spectra file of another variation" ELSE ""
      [] e.op = "pmmfile" -> IF e.dir # DirName(e.p, e.k) THEN "power-spectrum file of another variation" ELSE ""
      [] e.op = "derfile" -> IF e.dir # e.p \/ e.out # FileOf("der", e.p, 0) THEN "derivative file of another parameter" ELSE ""
      [] e.op = "pmmjob" -> IF e.seen # CosmoExpected(e.p, e.k) THEN "parameters the power-spectrum job computed with"
                            ELSE IF e.flat # flat THEN "flatness the power-spectrum job computed with" ELSE ""
      [] e.op = "cljob" -> IF e.cosmo # CosmoExpected(e.p, e.k) THEN "power spectrum the angular job computed with"
                           ELSE IF e.fidcosmo # [q \in CosmoNames |-> Fid(q)] THEN "fiducial cosmology of the angular job"
                           ELSE IF e.seen # Expected(e.p, e.k) THEN "parameters the angular job computed with"
                           ELSE IF e.saved # e.seen THEN "parameters the angular job recorded" ELSE ""
      [] OTHER -> "unknown event " \o e.op

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ SpecStep(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ (UNCHANGED vars /\ UNCHANGED jvars) /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
