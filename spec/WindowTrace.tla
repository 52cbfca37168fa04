------------------------------ MODULE WindowTrace ------------------------------
(* Recorded uses of the window:                                                 *)
(*   open   [win, counts, usual]      field [probe, field, to]                  *)
(*   cell   [par, column, to]         disp [row, to]    flat [to]    sky [to]   *)
(*   state  [on: probe -> what can be edited]                                   *)
(*   save   [name, kind, dated, out, files: names and kinds, got: digest, same, *)
(*           runs]                                                              *)
EXTENDS Window
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, win, counts, usual, files
tvars == <<tid, pos, ok, win, counts, usual, files>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ win = <<>> /\ counts = <<>> /\ usual = <<>> /\ files = {}
After(e) ==
    CASE e.op = "field" -> [win EXCEPT !.probes[e.probe] = SetField(win.probes[e.probe], e.field, e.to)]
      [] e.op = "cell" -> [win EXCEPT !.table[e.par][e.column] = e.to]
      [] e.op = "disp" -> [win EXCEPT !.disps[e.row] = e.to]
      [] e.op = "flat" -> [win EXCEPT !.flat = e.to]
      [] e.op = "sky" -> [win EXCEPT !.f_sky = e.to]
      [] OTHER -> win
SaveClause(e) ==
    LET want == Config(win, counts, usual) IN
    IF Bad(win) THEN IF e.out = "ok" THEN "bad text saved" ELSE IF SetOf(e.files) # files THEN "files left by a refused save" ELSE ""
    ELSE IF e.out # "ok" THEN "save refused"
    ELSE IF SetOf(e.files) # files \cup {Named(e.name, e.kind, e.dated)} THEN "file saved"
    ELSE IF \E f \in {"f_sky", "flat", "steps"} : e.got[f] # want[f] THEN "survey, flatness or displacements"
    ELSE IF DOMAIN e.got.pars # DOMAIN want.pars THEN "parameters of the configuration"
    ELSE IF e.got.pars # want.pars THEN "values of the parameters"
    ELSE IF DOMAIN e.got.probes # DOMAIN want.probes THEN "probes present"
    ELSE IF \E l \in DOMAIN want.probes : e.got.probes[l].multipoles # want.probes[l].multipoles THEN "multipoles"
    ELSE IF e.got.probes # want.probes THEN "settings of a probe"
    ELSE IF ~e.same THEN "loaded twice, not the same"
    ELSE IF e.runs # "ok" THEN "cannot be run" ELSE ""
Clause(e) ==
    CASE e.op = "save" -> SaveClause(e)
      [] e.op = "field" -> IF ~Editable(win.probes[e.probe], e.field) THEN "field edited while disabled" ELSE ""
      [] e.op = "state" -> IF \E p \in DOMAIN e.on : e.on[p] # [f \in DOMAIN e.on[p] |-> Editable(win.probes[p], f)] THEN "fields to edit" ELSE ""
      [] OTHER -> ""
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ IF Ev.op = "open" THEN win' = Ev.win /\ counts' = Ev.counts /\ usual' = Ev.usual /\ files' = {}
       ELSE /\ win' = After(Ev) /\ UNCHANGED <<counts, usual>>
            /\ files' = IF Ev.op = "save" THEN SetOf(Ev.files) ELSE files
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================
