----------------------------- MODULE RestartMC -----------------------------
EXTENDS Restart
CONSTANTS MaxCrash
VARIABLE crashes    \* ghost: where the kills happened
vs == <<rvars, crashes>>
MCProducts == <<"dens", "cls", "ders", "delta", "auto", "fisher", "results">>
Where == IF PSet \subseteq mem THEN <<"end", "before">>
         ELSE LET q == CHOOSE q \in PSet : Turn(q) IN
              <<q, IF q \notin fresh THEN "before" ELSE IF file[q] = "none" THEN "computed" ELSE "writing">>
MCInit == RInit /\ crashes = <<>>
MCNext == \/ \E p \in PSet : (Reuse(p) \/ Compute(p) \/ BeginWrite(p) \/ EndWrite(p)) /\ UNCHANGED crashes
          \/ (Start \/ Finish) /\ UNCHANGED crashes
          \/ Len(crashes) < MaxCrash /\ Crash /\ crashes' = Append(crashes, IF wrong = {} THEN Where ELSE <<"?", "?">>)
Step(A) == A /\ UNCHANGED crashes
Spec == MCInit /\ [][MCNext]_vs /\ WF_vs(Step(Start)) /\ WF_vs(Step(Finish))
        /\ \A p \in SetOf(MCProducts) : WF_vs(Step(Reuse(p))) /\ WF_vs(Step(Compute(p))) /\ WF_vs(Step(BeginWrite(p))) /\ WF_vs(Step(EndWrite(p)))
Completes == <>(proc = "done")
Emit == IF proc' = "done" /\ proc # "done" THEN Out("T", [crashes |-> crashes]) ELSE TRUE
=============================================================================
