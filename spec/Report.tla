------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What a report tells of the batch jobs of a run.                           *)
(* A job is what is left of it: [err, out, data, core] with                   *)
(*   err   the error log of its latest execution: none, empty, text, core     *)
(*   out   the output log of its latest execution: none, done, exited, open    *)
(*         (open: it tells neither success nor exit)                          *)
(*   data  whether its result file is there                                  *)
(*   core  whether there is a file of a core dump                            *)
(* A stage is a set of jobs, a run a set of stages that are not linked ones.   *)
(***************************************************************************)
EXTENDS Kit

Never == [err |-> "none", out |-> "none", data |-> FALSE, core |-> FALSE]
\* one more execution: its logs are the latest ones; data it does not write stay
Exec(a, e) == [err |-> IF e.err = "none" THEN a.err ELSE e.err, out |-> IF e.out = "none" THEN a.out ELSE e.out, data |-> a.data \/ e.data, core |-> a.core \/ e.core]
JobStatus(a) ==
    CASE a.err = "none" /\ a.out = "none" -> "NOT_EXECUTED"
      [] a.err \in {"text", "core"} -> "FAILURE"
      [] a.out = "exited" -> "FAILURE"
      [] a.err = "empty" /\ a.data -> "SUCCESS"
      [] OTHER -> "UNDEFINED"
Dumped(a) == JobStatus(a) = "FAILURE" /\ (a.err = "core" \/ a.core)

\* S is a set of statuses, n how many there are
Every(st, X) == \A s \in st : s \in X
StageStatus(st) ==
    CASE "FAILURE" \in st -> "FAILURE"
      [] st = {} \/ Every(st, {"NOT_EXECUTED"}) -> "NOT_EXECUTED"
      [] Every(st, {"SUCCESS"}) -> "SUCCESS"
      [] Every(st, {"SUCCESS", "NOT_EXECUTED"}) -> "NOT_COMPLETED"
      [] OTHER -> "UNDEFINED"
RunStatus(st) ==
    CASE "FAILURE" \in st -> "FAILURE"
      [] st # {} /\ Every(st, {"SUCCESS"}) -> "SUCCESS"
      [] Every(st, {"SUCCESS", "NOT_EXECUTED"}) -> "NOT_COMPLETED"
      [] OTHER -> "UNDEFINED"
\* jobs: a function from jobs to what is left of them
Statuses(jobs) == {JobStatus(jobs[j]) : j \in DOMAIN jobs}
Count(jobs, s) == Cardinality({j \in DOMAIN jobs : JobStatus(jobs[j]) = s})
StageReport(jobs) ==
    [status |-> StageStatus(Statuses(jobs)), n |-> Cardinality(DOMAIN jobs), succeeded |-> Count(jobs, "SUCCESS"), failed |-> Count(jobs, "FAILURE"),
     dumped |-> Cardinality({j \in DOMAIN jobs : Dumped(jobs[j])})]
\* stages: a function from the stages of the run to their jobs; linked: the stages that are links to those of another run
Own(stages, linked) == DOMAIN stages \ linked
RunReport(stages, linked) ==
    [status |-> RunStatus({StageStatus(Statuses(stages[s])) : s \in Own(stages, linked)}), stages |-> [s \in Own(stages, linked) |-> StageReport(stages[s])]]
=============================================================================
