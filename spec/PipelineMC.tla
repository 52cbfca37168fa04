----------------------------- MODULE PipelineMC -----------------------------
EXTENDS Pipeline
CONSTANTS Modes, N
Pars == [h |-> [free |-> TRUE, cosmo |-> TRUE, stem |-> TRUE],
         w |-> [free |-> FALSE, cosmo |-> TRUE, stem |-> TRUE],
         b |-> [free |-> TRUE, cosmo |-> FALSE, stem |-> FALSE]]
Crosses == {"X1", "X2"}
VARIABLE bad     \* the job that will fail, or <<"none", 0>>
vs == <<pvars, bad>>
MCInit ==
    /\ sel \in SUBSET StageSet /\ mode \in Modes
    /\ jobs = [s \in StageSet |-> JobsOf(s, Pars, N, mode, Crosses)]
    /\ bad \in {<<"none", <<"none", 0>>>>} \cup UNION {{<<s, j>> : j \in jobs[s]} : s \in IF mode = "no" THEN {} ELSE sel}
    /\ sent = {} /\ done = {} /\ failed = {} /\ dens = FALSE /\ delta = FALSE /\ res = FALSE /\ phase = "run"
MCNext == /\ \/ \E s \in StageSet : \E j \in jobs[s] : Send(s, j) \/ RunJob(s, j, <<s, j>> # bad)
             \/ (mode # "no" /\ Dens) \/ Delta \/ Res \/ End \/ Abort
          /\ UNCHANGED bad
Spec == MCInit /\ [][MCNext]_vs /\ WF_vs(MCNext)
Terminates == <>(phase \in {"ended", "aborted"})
\* stage-level summary of a finished forecast
Summary == [s \in StageSet |-> IF \E j \in jobs[s] : <<s, j>> \in done \cup failed
                               THEN IF Complete(s) THEN "all" ELSE "part" ELSE "none"]
Emit == IF phase' # phase
        THEN Out("T", [sel |-> sel, mode |-> mode, bad |-> bad, sum |-> Summary, delta |-> delta, res |-> res, end |-> phase'])
        ELSE TRUE
=============================================================================
