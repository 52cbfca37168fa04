---------------------------- MODULE CollectionTrace ----------------------------
EXTENDS Collection
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, found, rows, tab
tvars == <<tid, pos, ok, found, rows, tab>>
Tr == Traces[tid]
Ev == Tr[pos]
Setup == Tr[1]
\* forecasts on disk: Setup.runs[path] = [opts, mats: cosmology/treatment -> name -> identifier]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ found = {} /\ rows = <<>> /\ tab = {}

Key(e) == e.cosmology \o "/" \o e.treatment
Collected(e) == LET ps == SetToSeq(found) IN [i \in DOMAIN ps |-> RowOf(Setup.runs[ps[i]].opts, Setup.runs[ps[i]].mats[Key(e)])]
Bag(tb) == SetToSeq(tb)

Frame(obs, exp) == IF Len(obs) # Len(exp) THEN "number of analyses"
                   ELSE IF ~SameBag([i \in DOMAIN obs |-> obs[i].opts], [i \in DOMAIN exp |-> exp[i].opts]) THEN "options of the analyses"
                   ELSE IF ~SameBag(obs, exp) THEN "matrices or errors of an analysis" ELSE ""
Table(obs, exp) == IF SetOf(obs) # exp THEN "lines of the table" ELSE IF Len(obs) # Cardinality(exp) THEN "repeated lines" ELSE ""
Then(a, b) == IF a # "" THEN a ELSE b

\* differences of the figures of merit: [fisher, n, fom, delta: <<num, den>> or <<>>, percent]
Ref(t, map, l) == {k \in SetOf(t) : l.fisher \in DOMAIN map /\ k.fisher = map[l.fisher] /\ k.n = l.n}

Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "find" ->
           LET exp == Found(Setup.dirs, e.sel) IN
           IF e.out # "ok" THEN "search refused"
           ELSE IF {e.got[i].path : i \in DOMAIN e.got} # {PathOf(d) : d \in exp} THEN "directories found"
           ELSE IF Len(e.got) # Cardinality(exp) THEN "a directory found twice"
           ELSE IF \E d \in exp, i \in DOMAIN e.got : e.got[i].path = PathOf(d) /\ e.got[i].told # Told(d.name) THEN "what the names say" ELSE ""
      [] e.op = "load" ->
           LET exp == {PathOf(d) : d \in Found(Setup.dirs, e.sel)} IN
           IF e.out # "ok" THEN "forecasts not loaded"
           ELSE IF Len(e.got) # Cardinality(exp) \/ SetOf(e.got) # exp THEN "forecasts found" ELSE ""
      [] e.op = "table" -> IF e.out # "ok" THEN "no table" ELSE Table(e.got, Lines(Collected(e), "err"))
      [] e.op = "analyses" -> IF e.out # "ok" THEN "no analyses" ELSE Frame(e.got, Collected(e))
      [] e.op = "dump" ->
           IF e.out # "ok" THEN "results not written"
           ELSE Then(Frame(e.got, Collected(e)), Then(Table(e.abs, Lines(Collected(e), "err")), Table(e.rel, Lines(Collected(e), "rel"))))
      [] e.op = "replace" ->
           IF e.out # "ok" THEN IF Replaceable(rows) /\ Complete(rows) THEN "replacement refused" ELSE ""
           ELSE IF ~Replaceable(rows) THEN "replacement without equivalents"
           ELSE Frame(e.got, Replaced(rows))
      [] e.op = "query" ->
           LET xs == SetOf(e.names) IN
           IF ~Selectable(rows, e.q, xs) THEN IF e.out = "ok" THEN "unknown matrices selected" ELSE ""
           ELSE IF e.out # "ok" THEN "selection refused"
           ELSE Then(Frame(e.got, Selected(rows, e.q, xs)),
                IF \E i \in DOMAIN e.orders : e.orders[i] # e.names THEN "order of the selected matrices"
                ELSE IF Frame(e.after, rows) # "" THEN "the selection changed the analyses" ELSE "")
      [] e.op = "errors" -> IF e.out # "ok" THEN "no table" ELSE Table(e.got, Lines(rows, e.col))
      [] e.op = "tabreplace" ->
           IF e.out # "ok" THEN IF LinesReplaceable(tab) THEN "replacement refused" ELSE ""
           ELSE IF ~LinesReplaceable(tab) THEN "replacement without equivalents"
           ELSE Table(e.got, LinesReplaced(tab))
      [] e.op = "tabselect" ->
           IF e.out # "ok" THEN "selection refused"
           ELSE Then(Table(e.got, {l \in tab : Agrees(l.opts, e.q)}), IF Table(e.after, tab) # "" THEN "the selection changed the table" ELSE "")
      [] e.op = "tabfishers" ->
           IF \E i \in DOMAIN e.names : ~\E l \in tab : l.fisher = e.names[i] THEN IF e.out = "ok" THEN "unknown matrices selected" ELSE ""
           ELSE IF e.out # "ok" THEN "selection refused"
           ELSE Then(Table(e.got, {l \in tab : l.fisher \in SetOf(e.names)}),
                IF e.sorted /\ \E i \in 1..Len(e.got) - 1 : PosOf(e.got[i].fisher, e.names) > PosOf(e.got[i + 1].fisher, e.names)
                THEN "order of the selected matrices"
                ELSE IF Table(e.after, tab) # "" THEN "the selection changed the table" ELSE "")
      [] e.op = "fom" ->
           IF e.out # "ok" THEN "no differences"
           ELSE IF ~SameBag([i \in DOMAIN e.got |-> <<e.got[i].fisher, e.got[i].n, e.got[i].fom>>],
                            SelectSeq([i \in DOMAIN e.tab |-> <<e.tab[i].fisher, e.tab[i].n, e.tab[i].fom>>], LAMBDA l : l[1] \in SetOf(e.names)))
                THEN "lines of the table of differences"
           ELSE IF \E i \in DOMAIN e.got : LET l == e.got[i] r == Ref(e.tab, e.map, l) IN
                    IF r = {} THEN l.delta # <<>> \/ l.percent # <<>>
                    ELSE \A k \in r : \/ l.delta # <<l.fom - k.fom>>
                                      \/ l.percent = <<>>
                                      \/ l.percent[1] * k.fom # 100 * (l.fom - k.fom) * l.percent[2]
                THEN "difference of figures of merit" ELSE ""
      [] e.op = "excel" ->
           IF \E i \in DOMAIN e.steps : e.steps[i].out # (IF i > 1 /\ ~e.steps[i].over THEN "FileExistsError" ELSE "ok") THEN "a table written over another, or not"
           ELSE IF \E i \in DOMAIN e.steps : e.steps[i].now # (IF e.steps[i].out = "ok" THEN e.steps[i].new ELSE e.steps[i - 1].now) THEN "table written"
           ELSE ""
      [] OTHER -> "unknown event"

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN
           /\ ok' = TRUE /\ pos' = pos + 1
           /\ found' = IF Ev.op = "load" THEN SetOf(Ev.got) ELSE found
           /\ rows' = CASE Ev.op \in {"analyses", "dump"} /\ HasKey(Ev, "keep") /\ Ev.keep -> Collected(Ev)
                        [] Ev.op = "replace" /\ Ev.out = "ok" -> Replaced(rows)
                        [] OTHER -> rows
           /\ tab' = CASE Ev.op = "table" /\ Ev.keep -> Lines(Collected(Ev), "err")
                       [] Ev.op = "tabreplace" /\ Ev.out = "ok" -> LinesReplaced(tab)
                       [] OTHER -> tab
           /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c) /\ UNCHANGED <<found, rows, tab>>
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
