---------------------------- MODULE RunDirsTrace ----------------------------
(* Recorded histories of run directories: after each operation, what the    *)
(* stages of every run resolve to, which trees changed, what was recorded.  *)
EXTENDS RunDirs
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
TStages == {"PowerSpectrum", "Angular", "Derivative", "Fisher"}
TRuns == {"R1", "R2", "R3"}
TExt == {"E1", "E2", "E3"}
VARIABLES tid, pos, ok
tvars == <<rvars, tid, pos, ok>>
Tr == Traces[tid]
THas == [E1 |-> <<"PowerSpectrum", "Angular", "Derivative", "Fisher", "delta">>, E2 |-> <<"Angular", "Derivative">>,
         E3 |-> <<"PowerSpectrum", "Angular", "Derivative", "Fisher", "delta">>]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ RInit
Old(e) == IF e.op = "rerun" THEN slot[e.r] ELSE NoSlots
OldD(e) == IF e.op = "rerun" THEN delta[e.r] ELSE None
SpecStep(e) ==
    CASE e.op = "new" -> New(e.r, SetOf(e.sel), e.g, e.ex, e.inp)
      [] e.op = "replace" -> Replace(e.r, SetOf(e.sel), e.g, e.ex, e.inp)
      [] e.op = "rerun" -> Rerun(e.r, SetOf(e.sel), e.g, e.ex)
      [] e.op = "clash" -> Clash(e.r)
      [] e.op = "core" -> Core(e.r, e.g, e.inp)
      [] OTHER -> UNCHANGED rvars
May(e) == CASE e.op \in {"new", "core"} -> MayNew(e.r) [] e.op = "replace" -> MayReplace(e.r)
            [] e.op = "rerun" -> MayRerun(e.r) [] e.op = "clash" -> e.r \in exists [] OTHER -> FALSE
Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "clash" -> IF ~May(e) THEN "harness: impossible operation"
                           ELSE IF e.out # "FileExistsError" THEN "a run reused an existing directory (" \o e.out \o ")"
                           ELSE IF Len(e.touched) # 0 THEN "a refused run changed something" ELSE ""
      [] e.op \in {"new", "replace", "rerun"} ->
            LET sel == SetOf(e.sel)
                o == Outcome(Old(e), sel, e.g)
                want == Wanted(Old(e), sel, e.g)
                wd == NewDelta(Old(e), OldD(e), sel, e.g, e.ex) IN
            IF ~May(e) THEN "harness: impossible operation"
            ELSE IF \E t \in SetOf(e.touched) : t # e.r THEN "something outside the run's own directory changed: " \o
                    (CHOOSE t \in SetOf(e.touched) : t # e.r)
            ELSE IF e.out # o THEN "outcome " \o e.out \o " instead of " \o o
            ELSE IF o # "ok" THEN ""
            ELSE IF ~e.newdir THEN "the run did not work in its own new directory"
            ELSE IF \E s \in StageSet : e.slots[s] # want[s] THEN
                 LET s == CHOOSE s \in StageSet : e.slots[s] # want[s] IN
                 "stage " \o s \o " resolves to " \o e.slots[s] \o " instead of " \o want[s]
            ELSE IF e.delta # wd THEN "covariance inputs are " \o e.delta \o " instead of " \o wd
            ELSE IF \E s \in sel : e.ex /\ s # "Fisher" /\ ~e.wrote[s] THEN "products of an executed stage are not in the run directory"
            ELSE ""
      [] e.op = "core" ->
            LET o == CoreOutcome(e.g)
                want == CoreSlots(e.g) IN
            IF ~May(e) THEN "harness: impossible operation"
            ELSE IF Len(e.touched) # 0 THEN "something outside the run's own directory changed: " \o e.touched[1]
            ELSE IF e.out # o THEN "outcome " \o e.out \o " instead of " \o o
            ELSE IF o # "ok" THEN ""
            ELSE IF \E s \in StageSet : e.slots[s] # want[s] THEN
                 LET s == CHOOSE s \in StageSet : e.slots[s] # want[s] IN
                 "stage " \o s \o " resolves to " \o e.slots[s] \o " instead of " \o want[s]
            ELSE IF e.cl # (IF IsLink(want["Angular"]) THEN "FileNotFoundError" ELSE "ok")
                 THEN "computing the fiducial spectra: " \o e.cl
            ELSE IF Len(e.cltouched) # 0 THEN "computing the fiducial spectra changed something outside: " \o e.cltouched[1]
            ELSE ""
      [] e.op = "readback" ->
            \* every recorded role has the content of the input it was copied from
            IF e.inp # rec[e.r] THEN "harness: wrong inputs"
            ELSE IF e.roles # e.want THEN "recorded inputs differ: " \o ToString(e.roles) \o " instead of " \o ToString(e.want)
            ELSE IF ~e.cfg THEN "the forecast configuration read back differs"
            ELSE IF ~e.params THEN "the parameters read back differ"
            ELSE IF e.datadir # e.wantdata THEN "the input data directory recorded is another one"
            ELSE ""
      [] OTHER -> "unknown event " \o e.op
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ SpecStep(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED rvars /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
