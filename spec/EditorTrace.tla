---------------------------- MODULE EditorTrace ----------------------------
EXTENDS Editor
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, names
tvars == <<evars, tid, pos, ok, names>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == /\ tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ names = {}
             /\ dicts = [d \in 1..3 |-> NONE] /\ eds = [e \in 1..4 |-> NONE] /\ files = [o \in {} |-> TRUE] /\ op = NONE
\* a configuration seen as what it holds at the paths the options may touch, and the paths at which it differs from the shipped one
Shows(o, es) == /\ \A x \in es : x[1] \in DOMAIN o.at /\ o.at[x[1]] = x[2]
                /\ SetOf(o.changed) \subseteq Paths(es)
Names(kind, name, opts) == \A x \in names : x[1] = kind => ((x[2] = name) <=> (x[3] = opts))
Ops(e) ==
    CASE e.op = "choose" -> Choose(e.d, e.opts)
      [] e.op = "mutate" -> dicts' = [dicts EXCEPT ![e.d] = e.opts] /\ UNCHANGED <<eds, files, op>>
      [] e.op = "make" -> Make(e.e, e.d)
      [] e.op = "apply" -> Apply(e.e)
      [] e.op = "write" -> Write(e.e)
      [] OTHER -> UNCHANGED evars
Enabled(e) ==
    CASE e.op = "make" -> dicts[e.d] # NONE
      [] e.op \in {"apply", "write"} -> eds[e.e] # NONE
      [] OTHER -> TRUE
\* checked on the state after the operation
Clause(e) ==
    CASE e.op = "make" ->
           IF (e.out = "ok") # Accepted(dicts[e.d]) THEN (IF e.out = "ok" THEN "invalid options accepted" ELSE "valid options refused") ELSE ""
      [] e.op = "apply" -> IF e.out # "ok" THEN "edit refused" ELSE ""
      [] e.op = "write" ->
           IF e.out # "ok" THEN "configuration cannot be written"
           ELSE IF e.dated # "yes" /\ ~Names("file", e.name, eds[e.e].opts) THEN "file names do not identify the option sets"
           ELSE IF ~Names("id", e.id, eds[e.e].opts) THEN "identifiers do not identify the option sets"
           ELSE IF e.readback # "same" THEN "the file does not read back as the edited configuration"
           ELSE IF ~Shows(e.file, Edits(eds[e.e].opts, eds[e.e].applied)) THEN "the file is not the edited configuration" ELSE ""
      [] e.op = "look" ->
           IF \E i \in DOMAIN e.eds : eds[i] # NONE /\ ~Shows(e.eds[i], Edits(eds[i].opts, eds[i].applied)) THEN "an editor holds something else"
           ELSE IF e.shipped # "same" THEN "the shipped configuration was altered" ELSE ""
      [] e.op = "forecast" ->
           LET o == eds[e.e].opts IN
           IF e.out # "ok" THEN "edited configuration cannot be loaded"
           ELSE IF <<e.scenario, e.n_sp_bins, e.reduced>> # <<o["scenario"], o["n_sp_bins"], o["shot_noise_sp_reduced"]>> THEN "loaded options"
           ELSE IF eds[e.e].applied /\ e.lmax # (IF o["scenario"] = "pessimistic" THEN <<750, 750, 1500>> ELSE <<3000, 3000, 5000>>) THEN "loaded multipoles" ELSE ""
      [] e.op = "compare" ->
           LET s == SameForecast(e.l, e.r) IN
           IF e.lr \notin {"same", "different"} \/ e.rl \notin {"same", "different"} THEN "comparison failed"
           ELSE IF (e.lr = "same") # s \/ (e.rl = "same") # s THEN "comparison of forecasts"
           ELSE IF (e.ne = "true") = s THEN "inequality of forecasts" ELSE ""
      [] e.op = "stage" ->   \* a stage configuration: <<key, value>> pairs set, written and read back
           IF e.out # "ok" THEN (IF e.known = "yes" THEN "stage configuration refused" ELSE "")
           ELSE IF e.known # "yes" THEN "unknown stage accepted"
           ELSE IF SetOf(e.got) # (SetOf(e.base) \ {x \in SetOf(e.base) : x[1] \in {y[1] : y \in SetOf(e.set)}}) \cup SetOf(e.set) THEN "stage configuration after edits"
           ELSE IF SetOf(e.readback) # SetOf(e.got) THEN "stage configuration read back"
           ELSE IF SetOf(e.other) # SetOf(e.base) THEN "another stage configuration was altered" ELSE ""
      [] e.op = "zgrid" ->   \* bounds and points in units of 1/den: the asked number of points, equally spaced between the bounds
           IF Len(e.z) # e.n \/ (\E i \in 1..e.n : (e.z[i] - e.zmin) * (e.n - 1) # (i - 1) * (e.zmax - e.zmin)) THEN "redshift grid" ELSE ""
      [] e.op = "flag" ->    \* flags by pair of probes, found whichever way the pair is named
           LET hit == {x \in SetOf(e.flags) : x[1] = e.p1 \o "_" \o e.p2}
               rev == {x \in SetOf(e.flags) : x[1] = e.p2 \o "_" \o e.p1}
               use == IF hit # {} THEN hit ELSE rev IN
           IF use = {} THEN (IF e.out = "ok" THEN "flag of an unknown pair" ELSE "")
           ELSE IF e.out # "ok" \/ e.flag \notin {x[2] : x \in use} THEN "flag of a pair" ELSE ""
      [] OTHER -> ""
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == IF ~Enabled(Ev) THEN "not possible" ELSE Clause(Ev) IN
        IF c = "" THEN /\ ok' = TRUE /\ pos' = pos + 1 /\ Ops(Ev) /\ ((pos = Len(Tr)) => Accept(tid))
                       /\ names' = IF Ev.op = "write" THEN names \cup {<<IF Ev.dated = "yes" THEN "dated" ELSE "file", Ev.name, eds[Ev.e].opts>>, <<"id", Ev.id, eds[Ev.e].opts>>} ELSE names
        ELSE ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c) /\ UNCHANGED <<evars, names>>
    /\ tid' = tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
