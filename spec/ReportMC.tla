------------------------------ MODULE ReportMC ------------------------------
(* Histories of the jobs of a run: executions that end in every way, repeated ones, and what the report of each moment says. *)
EXTENDS Report
CONSTANTS MaxExec, MaxJobs
\* how executions end, and what they leave
Ends == [ok |-> [err |-> "empty", out |-> "done", data |-> TRUE, core |-> FALSE],
         error |-> [err |-> "text", out |-> "exited", data |-> FALSE, core |-> FALSE],
         noise |-> [err |-> "text", out |-> "done", data |-> TRUE, core |-> FALSE],
         core |-> [err |-> "core", out |-> "exited", data |-> FALSE, core |-> TRUE],
         corefile |-> [err |-> "text", out |-> "exited", data |-> FALSE, core |-> TRUE],
         killed |-> [err |-> "empty", out |-> "exited", data |-> TRUE, core |-> FALSE],
         empty |-> [err |-> "empty", out |-> "done", data |-> FALSE, core |-> FALSE],
         open |-> [err |-> "empty", out |-> "open", data |-> TRUE, core |-> FALSE],
         noout |-> [err |-> "empty", out |-> "none", data |-> TRUE, core |-> FALSE],
         noerr |-> [err |-> "none", out |-> "done", data |-> TRUE, core |-> FALSE]]
Stages == {"A", "B", "C"}
Jobs == 1..MaxJobs
VARIABLES jobs, linked, hist, last
mvars == <<jobs, linked, hist, last>>
\* (stages made so far; C may be a link)
Init == /\ \E S \in SUBSET Stages, n \in [Stages -> 0..MaxJobs] :
             /\ (\A s \in Stages \ S : n[s] = 0)
             /\ jobs = [s \in S |-> [j \in 1..n[s] |-> Never]]
             /\ linked \in {{}, {"C"} \cap S}
        /\ hist = <<>> /\ last = [s \in Stages |-> [j \in Jobs |-> "never"]]
Do(s, j, e) == /\ jobs' = [jobs EXCEPT ![s][j] = Exec(@, Ends[e])]
               /\ hist' = Append(hist, <<s, j, e>>) /\ last' = [last EXCEPT ![s][j] = e] /\ linked' = linked
Next == /\ Len(hist) < MaxExec
        /\ \E s \in DOMAIN jobs : \E j \in DOMAIN jobs[s], e \in DOMAIN Ends : Do(s, j, e)
Spec == Init /\ [][Next]_mvars
View == <<jobs, linked, last>>

R == RunReport(jobs, linked)
Mine == {x \in Own(jobs, linked) \X Jobs : x[2] \in DOMAIN jobs[x[1]]}
Final(x) == last[x[1]][x[2]]
\* success only if the latest execution of every job of every stage ended well (or its output log is lost)
Sound == R.status = "SUCCESS" => Mine # {} /\ \A x \in Mine : Final(x) \in {"ok", "open", "noout", "noerr", "empty"} /\ jobs[x[1]][x[2]].data
\* a failure of a latest execution is always told, and is always one
Told == (\E x \in Mine : Final(x) \in {"error", "noise", "core", "corefile", "killed"}) => R.status = "FAILURE"
Real == R.status = "FAILURE" => \E x \in Mine : Final(x) \in {"error", "noise", "core", "corefile", "killed", "noout", "noerr"}
\* every job is counted once
Counted == \A s \in Own(jobs, linked) :
    LET n(x) == Count(jobs[s], x) IN
    /\ n("SUCCESS") + n("FAILURE") + n("NOT_EXECUTED") + n("UNDEFINED") = Cardinality(DOMAIN jobs[s])
    /\ R.stages[s].dumped <= R.stages[s].failed
    /\ (R.stages[s].status = "SUCCESS" <=> R.stages[s].n > 0 /\ R.stages[s].succeeded = R.stages[s].n)
    /\ (R.stages[s].status = "FAILURE" <=> R.stages[s].failed > 0)
\* whatever happened before, a job that is executed once more and ends well is a success
Recovers == \A s \in DOMAIN jobs : \A j \in DOMAIN jobs[s] : last[s][j] = "ok" => JobStatus(jobs[s][j]) = "SUCCESS"
\* linked stages do not matter
Others == \A s \in linked : R = RunReport([t \in DOMAIN jobs \ {s} |-> jobs[t]], linked)
NeverRun == (\A x \in Mine : Final(x) = "never") => R.status = "NOT_COMPLETED" /\ \A s \in Own(jobs, linked) : R.stages[s].status = "NOT_EXECUTED"
Emit == Out("T", [own |-> [s \in DOMAIN jobs |-> Cardinality(DOMAIN jobs[s])], linked |-> SetToSeq(linked), hist |-> hist', report |-> RunReport(jobs', linked)])
=============================================================================
