----------------------------- MODULE ReportTrace -----------------------------
(* Recorded runs: executions of jobs, and the reports written in between.  Times in ms, sizes in kB. *)
EXTENDS Report
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, jobs, linked, logs
tvars == <<tid, pos, ok, jobs, linked, logs>>
Tr == Traces[tid]
Ev == Tr[pos]
NoLog == [id |-> "None", hosts |-> <<>>, secs |-> 0, kB |-> 0]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ jobs = <<>> /\ linked = {} /\ logs = <<>>
Of(s, st) == {j \in DOMAIN jobs[s] : JobStatus(jobs[s][j]) = st}
\* what a report says of a job: [job, id, status, hosts, ms, kB, dumped, file]
Size(s, j) == IF JobStatus(jobs[s][j]) = "SUCCESS" THEN logs[s][j].kB ELSE 0
JobRight(s, x) ==
    LET a == jobs[s][x.job] l == logs[s][x.job] st == JobStatus(a) IN
    /\ x.status = st
    /\ x.id = l.id /\ x.hosts = l.hosts /\ x.ms = l.secs * 1000
    /\ (st = "SUCCESS" => x.kB = l.kB)
    /\ (st \in {"FAILURE", "UNDEFINED"} => (x.dumped = "True") = Dumped(a))
Sum(f, S) == FoldSet(LAMBDA j, acc : acc + f[j], 0, S)
Each(s) == [j \in DOMAIN jobs[s] |-> logs[s][j].secs]
Hosts(s, st) == UNION {SetOf(logs[s][j].hosts) : j \in Of(s, st)}
StageRight(s, x) ==
    LET rep == StageReport(jobs[s]) n == rep.n IN
    IF x.status # rep.status THEN "status of a stage"
    ELSE IF x.status # "NOT_EXECUTED" /\ ~(x.n = n /\ x.succeeded = rep.succeeded /\ x.failed = rep.failed /\ x.dumped = rep.dumped) THEN "number of jobs of a stage"
    ELSE IF x.status # "NOT_EXECUTED" /\ ~(SetOf(x.good) = Hosts(s, "SUCCESS") /\ SetOf(x.bad) = Hosts(s, "FAILURE")) THEN "hosts of a stage"
    ELSE IF x.status # "NOT_EXECUTED" /\ Abs(x.ms * n - Sum(Each(s), DOMAIN jobs[s]) * 1000) > n THEN "mean time of a stage"
    ELSE IF x.status # "NOT_EXECUTED" /\ x.kB # Sum([j \in DOMAIN jobs[s] |-> Size(s, j)], DOMAIN jobs[s]) THEN "output of a stage"
    ELSE IF ~(Len(x.jobs) = n /\ NoDup([i \in 1..Len(x.jobs) |-> x.jobs[i].job]) /\ \A i \in 1..Len(x.jobs) : x.jobs[i].job \in DOMAIN jobs[s]) THEN "jobs of a stage"
    ELSE IF \E i \in 1..Len(x.jobs) : ~JobRight(s, x.jobs[i]) THEN "a job"
    ELSE IF (\A i \in 1..Len(x.jobs) : x.jobs[i].id # "None") /\ \E i \in 1..(Len(x.jobs) - 1) : x.jobs[i].num >= x.jobs[i + 1].num THEN "order of the jobs"
    ELSE ""
Clause(e) ==
    CASE e.op \in {"setup", "exec"} -> ""
      [] e.op = "report" ->
           LET R == RunReport(jobs, linked)
               bad == {s \in DOMAIN R.stages : StageRight(s, e.stages[s]) # ""} IN
           IF e.out # "ok" THEN "no report"
           ELSE IF e.status # R.status THEN "status of the run"
           ELSE IF DOMAIN e.stages # DOMAIN R.stages \/ e.doubles THEN "stages of the run"
           ELSE IF bad # {} THEN StageRight(CHOOSE s \in bad : TRUE, e.stages[CHOOSE s \in bad : TRUE])
           ELSE IF e.summary # e.status \/ ~e.same THEN "summary"
           ELSE ""
      \* the end of a batch run: its report is there
      [] e.op = "batch" -> IF e.written THEN "" ELSE "no report of a batch run"
      \* the logs of whole runs: those that did not complete are pointed out
      [] e.op = "sweep" -> LET bad == {i \in 1..Len(e.logs) : e.logs[i].out # "done"} IN
           IF e.out # "ok" \/ e.flagged # SortSeq([i \in 1..Cardinality(bad) |-> e.logs[SetToSortSeq(bad, <)[i]].rank], <) THEN "runs that did not complete"
           ELSE IF e.all # (bad = {}) THEN "all runs completed"
           ELSE ""
      \* resources of the jobs of the Fisher stage
      [] e.op = "usage" ->
           IF e.out # "ok" THEN "no table of resources"
           ELSE IF SetOf(e.rows) # SetOf(e.jobs) \/ Len(e.rows) # Len(e.jobs) THEN "table of resources" ELSE ""
      [] e.op = "timing" -> IF e.ms = e.secs * 1000 THEN "" ELSE "duration of the run"
      [] OTHER -> "unknown"
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
                       /\ CASE Ev.op = "setup" -> /\ jobs' = [s \in DOMAIN Ev.stages |-> [j \in SetOf(Ev.stages[s]) |-> Never]]
                                                  /\ logs' = [s \in DOMAIN Ev.stages |-> [j \in SetOf(Ev.stages[s]) |-> NoLog]]
                                                  /\ linked' = SetOf(Ev.linked)
                            [] Ev.op = "exec" -> /\ jobs' = [jobs EXCEPT ![Ev.stage][Ev.job] = Exec(@, Ev.left)]
                                                 /\ logs' = [logs EXCEPT ![Ev.stage][Ev.job] =
                                                        [(IF Ev.left.out = "none" THEN @ ELSE [@ EXCEPT !.id = Ev.id, !.hosts = Ev.hosts, !.secs = Ev.secs]) EXCEPT !.kB = IF Ev.left.data THEN Ev.kB ELSE @]]
                                                 /\ linked' = linked
                            [] OTHER -> UNCHANGED <<jobs, linked, logs>>
        ELSE ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c) /\ UNCHANGED <<jobs, linked, logs>>
    /\ tid' = tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
