---------------------------- MODULE PipelineTrace ----------------------------
EXTENDS Pipeline
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<pvars, tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]
S0 == Tr[1]
Cr == SetOf(S0.crosses)
TraceInit ==
    /\ tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE
    /\ sel = SetOf(S0.sel) /\ mode = S0.mode
    /\ jobs = [s \in StageSet |-> JobsOf(s, S0.pars, S0.n, S0.mode, Cr)]
    /\ sent = {} /\ done = {} /\ failed = {} /\ dens = FALSE /\ delta = FALSE /\ res = FALSE /\ phase = "run"
J(e) == <<e.p, e.k>>
SpecStep(e) ==
    CASE e.op = "send" -> Send(e.s, J(e))
      [] e.op = "job" -> RunJob(e.s, J(e), e.good)
      [] e.op = "dens" -> Dens
      [] e.op = "delta" -> Delta
      [] e.op = "res" -> Res
      [] e.op = "end" -> IF e.out = "ok" THEN End ELSE Abort
      [] OTHER -> UNCHANGED pvars
Why(s, j) == IF s \notin sel THEN "job of a stage that was not selected"
             ELSE IF mode = "no" THEN "job executed although execution is disabled"
             ELSE IF j \notin jobs[s] THEN "job that the stage does not need"
             ELSE IF \E t \in Before(s) \cap sel : \E f \in failed : f[1] = t THEN "job of a stage after a failed one"
             ELSE IF ~\A t \in Before(s) \cap sel : Complete(t) THEN "job before the previous stage is complete"
             ELSE IF s = "Angular" /\ ~dens THEN "angular job before the densities"
             ELSE IF s \in {"Derivative", "Fisher"} /\ "Angular" \in sel /\ ~delta THEN "job before the covariance inputs"
             ELSE IF ~FisherOrder(s, j) THEN "combined Fisher matrix before the single-probe ones"
             ELSE IF <<s, j>> \in done \cup failed \/ (mode = "batch" /\ <<s, j>> \in sent) THEN "job executed twice"
             ELSE "job after a failure"
Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "send" -> IF MaySend(e.s, J(e)) THEN "" ELSE Why(e.s, J(e))
      [] e.op = "job" ->
            IF e.cwd # "own" THEN "job not executed in its own directory"
            ELSE IF e.rundir # "own" THEN "job executed for another run directory"
            ELSE IF e.cfg # "own" THEN "job executed with another stage configuration"
            ELSE IF MayRun(e.s, J(e)) THEN ""
            ELSE IF mode = "batch" /\ <<e.s, J(e)>> \in sent THEN "job executed twice" ELSE Why(e.s, J(e))
      [] e.op = "dens" -> IF MayDens THEN "" ELSE "densities at the wrong moment"
      [] e.op = "delta" -> IF MayDelta THEN "" ELSE "covariance inputs at the wrong moment"
      [] e.op = "res" -> IF ~MayRes THEN "final results at the wrong moment"
                         ELSE IF e.rundir # "own" THEN "final results of another run"
                         ELSE IF e.over # S0.over THEN "overwrite request not passed to the final results"
                         ELSE IF e.ex # mode THEN "execution mode not passed to the final results" ELSE ""
      [] e.op = "end" -> IF e.out = "ok" THEN IF failed # {} THEN "a failed job went unnoticed"
                                              ELSE IF ~Everything THEN "forecast ended with work left undone" ELSE ""
                         ELSE IF failed = {} THEN "forecast failed although no job failed (" \o e.out \o ")" ELSE ""
      [] e.op = "tree" ->
            \* what is on disk at the end, per selected stage: [p, k, number of scripts, own configuration]
            IF \E s \in StageSet \ sel : Len(e.dirs[s]) # 0 THEN "directories of a stage that was not selected"
            ELSE IF \E s \in sel : \/ {<<d[1], d[2]>> : d \in SetOf(e.dirs[s])} # DirsOf(s, S0.pars, S0.n)
                                   \/ Len(e.dirs[s]) # Cardinality(DirsOf(s, S0.pars, S0.n))
                 THEN "prepared jobs are not those of the selected parameters and steps"
            ELSE IF \E s \in sel : \E d \in SetOf(e.dirs[s]) : d[3] # 1 THEN "not exactly one script per job"
            ELSE IF \E s \in sel : \E d \in SetOf(e.dirs[s]) : ~d[4] THEN "job directory without its stage configuration"
            ELSE ""
      [] OTHER -> "unknown event " \o e.op
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ SpecStep(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED pvars /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
