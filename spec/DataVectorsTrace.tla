-------------------------- MODULE DataVectorsTrace --------------------------
EXTENDS DataVectors
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<dvars, tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]

TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ dvs = <<>> /\ d = <<>> /\ transposing = FALSE /\ last = <<>>

\* the vector a written form stands for is the one (of those made in this trace) that has this form
Made == {dvs[x] : x \in DOMAIN dvs}
FormOf(form, v) == CASE form = "name" -> NameOfDv(v) [] form = "brief" -> BriefOf(v) [] form = "string" -> StringOf(v)

SpecStep(e) ==
    /\ UNCHANGED kvars
    /\ CASE e.op = "make" -> Make(e.id, e.v)
         [] OTHER -> UNCHANGED dvs

Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "make" -> IF e.out # "ok" THEN "a sequence of distinct spectra was refused" ELSE ""
      [] e.op = "obs" ->
            LET v == dvs[e.id] IN
            IF e.out # "ok" THEN "a data vector that cannot be described"
            ELSE IF e.v # v THEN "entries"
            ELSE IF e.n # Len(v) THEN "number of entries"
            ELSE IF e.name # NameOfDv(v) THEN "name"
            ELSE IF e.brief # BriefOf(v) THEN "brief form"
            ELSE IF e.single # SingleAuto(v) THEN "single-probe"
            ELSE IF SetOf(e.own) # {AliasN[p] : p \in OwnProbes(v)} THEN "probes whose own spectrum belongs to it"
            ELSE IF e.short # v \/ e.tuple # v THEN "entries after a change of spelling"
            ELSE ""
      [] e.op = "read" -> IF e.out # "ok" THEN "a written form could not be read back"
                          ELSE IF e.v # dvs[e.id] THEN "a written form was read back as another data vector" ELSE ""
      [] e.op = "badread" -> IF e.out = "ok" THEN "something that names no data vector was read as one" ELSE ""
      [] e.op = "eq" -> IF e.r # (dvs[e.x] = dvs[e.y]) THEN "equality of data vectors" ELSE ""
      [] e.op = "samename" -> IF e.r # (dvs[e.x] = dvs[e.y]) THEN "two data vectors share a written form" ELSE ""
      [] e.op = "select" -> IF e.out # e.lines THEN "selected data vectors" ELSE ""
      [] e.op = "shipped" -> IF ~GoodSelection(e.out) THEN "selection for a forecast"
                             ELSE IF e.names # [i \in DOMAIN e.out |-> NameOfDv(e.out[i])] THEN "selected vectors listed under other names"
                             ELSE IF e.autos # [i \in DOMAIN e.autos |-> BriefOf(e.out[i])]
                                  \/ {i \in DOMAIN e.out : SingleAuto(e.out[i])} # DOMAIN e.autos THEN "single-probe part of the selection"
                             ELSE IF e.autos \o e.crosses # [i \in DOMAIN e.out |-> BriefOf(e.out[i])] THEN "selection handed to the Fisher stage"
                             ELSE ""
      [] e.op = "fisher" ->
            IF e.out # "ok" THEN "Fisher matrix not computed"
            ELSE IF SetOf(e.files) # {FileOf(dvs[x]) : x \in SetOf(e.ids)} THEN "files of the Fisher matrices"
            ELSE IF \E i \in DOMAIN e.ids : e.names[i] # NameOfDv(dvs[e.ids[i]]) THEN "name of a Fisher matrix"
            ELSE IF \E i \in DOMAIN e.ids : e.used[i] # dvs[e.ids[i]] THEN "Fisher matrix computed from another data vector"
            ELSE ""
      [] OTHER -> "unknown event"

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ SpecStep(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED dvars /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
