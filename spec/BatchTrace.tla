----------------------------- MODULE BatchTrace -----------------------------
EXTENDS Batch
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<bvars, tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == /\ tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE
             /\ world = [j \in SetOf(Tr[1].jobs) |-> "unlisted"] /\ mine = {} /\ seen = {} /\ phase = "submit" /\ polls = 0
World(e) == [j \in DOMAIN world |-> e.w[j]]
Limit == Tr[1].limit       \* seconds after which the waiter may give up
SpecStep(e) ==
    CASE e.op = "submit" -> IF e.out = "ok" THEN Submit(e.assigned) ELSE UNCHANGED bvars
      [] e.op = "wait" -> phase' = "wait" /\ UNCHANGED <<world, mine, seen, polls>>
      [] e.op = "poll" -> /\ world' = World(e) /\ polls' = polls + 1
                          /\ seen' = SeenAfter(World(e), mine, seen)
                          /\ phase' = IF Verdict(World(e), mine, seen, polls') = "wait" /\ e.elapsed > Limit /\ e.then = "gaveup"
                                      THEN "gaveup" ELSE Verdict(World(e), mine, seen, polls')
                          /\ UNCHANGED mine
      [] e.op = "next" -> /\ phase' = "submit" /\ mine' = {} /\ seen' = {} /\ polls' = 0 /\ UNCHANGED world
      [] OTHER -> UNCHANGED bvars
Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "submit" ->
            IF e.accepted /\ e.out # "ok" THEN "an accepted submission was reported as failed"
            ELSE IF ~e.accepted /\ e.out = "ok" THEN "a refused submission returned an identifier"
            ELSE IF ~e.accepted THEN ""
            ELSE IF e.returned # e.assigned THEN "identifier returned by the submission"
            ELSE IF e.seen # e.want THEN "what the batch system was asked to run"
            ELSE IF phase # "submit" THEN "submission during a wait" ELSE ""
      [] e.op = "dry" -> IF e.asked # 0 THEN "dry submission reached the batch system" ELSE ""
      [] e.op = "wait" -> IF SetOf(e.ids) # mine THEN "waiting for other jobs than the submitted ones" ELSE ""
      [] e.op = "poll" ->
            LET v == Verdict(World(e), mine, seen, polls + 1) IN
            IF phase # "wait" THEN "batch system asked after the wait was over"
            ELSE IF v = "wait" /\ e.then = "over" THEN "wait returned although not every waited job was reported DONE"
            ELSE IF v = "wait" /\ e.then = "gaveup" /\ e.elapsed <= Limit THEN "wait returned although not every waited job was reported DONE (time limit not reached)"
            ELSE IF v = "wait" /\ e.then = "failed" THEN "error reported although no waited job exited"
            ELSE IF v = "over" /\ e.then # "over" THEN "every waited job was reported DONE, but the wait did not return normally"
            ELSE IF v = "failed" /\ e.then # "failed" THEN "a waited job exited and the wait went on" ELSE ""
      [] e.op = "next" -> IF phase \notin {"over", "gaveup"} THEN "next stage without the barrier of the previous one" ELSE ""
      [] OTHER -> "unknown event " \o e.op
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ SpecStep(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED bvars /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
