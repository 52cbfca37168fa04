------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* One forecast: which jobs each stage consists of, and the order in which  *)
(* the stages, the densities, the covariance inputs and the final results   *)
(* are executed.                                                            *)
(***************************************************************************)
EXTENDS Kit

Stages == <<"PowerSpectrum", "Angular", "Derivative", "Fisher">>
StageSet == SetOf(Stages)
Before(s) == {Stages[i] : i \in 1..(PosOf(s, Stages) - 1)}

\* pars: name -> [free, cosmo, stem]
Steps(n) == {k \in -n..n : k # 0}
Varied(pars) == {p \in DOMAIN pars : pars[p].free /\ pars[p].stem}
PmmJobs(pars, n) == {<<"central", 0>>} \cup {<<p, k>> : p \in {q \in Varied(pars) : pars[q].cosmo}, k \in Steps(n)}
ClJobs(pars, n)  == {<<"central", 0>>} \cup {<<p, k>> : p \in Varied(pars), k \in Steps(n)}
DerJobs(pars)    == {<<p, 0>> : p \in {q \in DOMAIN pars : pars[q].free}}
\* single-probe matrices are computed in one go, combined ones in one go or one by one
FisherJobs(mode, crosses) == {<<"autos", 0>>} \cup
                             (IF mode = "batch" THEN {<<c, 0>> : c \in crosses} ELSE {<<"crosses", 0>>})
JobsOf(s, pars, n, mode, crosses) ==
    CASE s = "PowerSpectrum" -> PmmJobs(pars, n)
      [] s = "Angular" -> ClJobs(pars, n)
      [] s = "Derivative" -> DerJobs(pars)
      [] s = "Fisher" -> FisherJobs(mode, crosses)
\* the directories prepared on disk
DirsOf(s, pars, n) ==
    CASE s = "PowerSpectrum" -> PmmJobs(pars, n)
      [] s = "Angular" -> ClJobs(pars, n)
      [] s = "Derivative" -> DerJobs(pars)
      [] s = "Fisher" -> {}

VARIABLES sel, mode, jobs,      \* selection, execution mode, stage -> set of jobs
          sent, done, failed,   \* sets of <<stage, job>>
          dens, delta, res,     \* products computed by the submitter itself
          phase                 \* "run", "ended", "aborted"
pvars == <<sel, mode, jobs, sent, done, failed, dens, delta, res, phase>>

Complete(s) == \A j \in jobs[s] : <<s, j>> \in done
Reached(s) == /\ phase = "run" /\ failed = {} /\ s \in sel
              /\ \A t \in Before(s) \cap sel : Complete(t)
\* what has to exist before the first job of a stage
InputsReady(s) == /\ (s = "Angular" => dens)
                  /\ ((s \in {"Derivative", "Fisher"} /\ "Angular" \in sel) => delta)
FisherOrder(s, j) == (s = "Fisher" /\ j # <<"autos", 0>>) => <<s, <<"autos", 0>>>> \in done

MaySend(s, j) == /\ mode = "batch" /\ Reached(s) /\ InputsReady(s) /\ FisherOrder(s, j)
                 /\ j \in jobs[s] /\ <<s, j>> \notin sent
MayRun(s, j) == /\ phase = "run" /\ s \in sel /\ j \in jobs[s] /\ <<s, j>> \notin done \cup failed
                /\ CASE mode = "interactive" -> Reached(s) /\ InputsReady(s) /\ FisherOrder(s, j)
                     [] mode = "batch" -> <<s, j>> \in sent
                     [] OTHER -> FALSE
\* with execution disabled the densities may still be prepared when the power spectra already exist elsewhere
MayDens == /\ phase = "run" /\ ~dens /\ "Angular" \in sel /\ failed = {}
           /\ ~\E j \in jobs["Angular"] : <<"Angular", j>> \in sent \cup done
           /\ (mode = "no" => "PowerSpectrum" \notin sel)
MayDelta == /\ ~delta /\ mode # "no" /\ Reached("Angular") /\ Complete("Angular")
            /\ ~\E s \in {"Derivative", "Fisher"} : \E j \in jobs[s] : <<s, j>> \in sent \cup done
MayRes == /\ ~res /\ mode # "no" /\ Reached("Fisher") /\ Complete("Fisher")

Send(s, j) == /\ MaySend(s, j) /\ sent' = sent \cup {<<s, j>>}
              /\ UNCHANGED <<sel, mode, jobs, done, failed, dens, delta, res, phase>>
RunJob(s, j, ok) == /\ MayRun(s, j)
                    /\ IF ok THEN done' = done \cup {<<s, j>>} /\ UNCHANGED failed
                             ELSE failed' = failed \cup {<<s, j>>} /\ UNCHANGED done
                    /\ UNCHANGED <<sel, mode, jobs, sent, dens, delta, res, phase>>
Dens == MayDens /\ dens' = TRUE /\ UNCHANGED <<sel, mode, jobs, sent, done, failed, delta, res, phase>>
Delta == MayDelta /\ delta' = TRUE /\ UNCHANGED <<sel, mode, jobs, sent, done, failed, dens, res, phase>>
Res == MayRes /\ res' = TRUE /\ UNCHANGED <<sel, mode, jobs, sent, done, failed, dens, delta, phase>>
Everything == IF mode = "no" THEN TRUE
              ELSE /\ \A s \in sel : Complete(s)
                   /\ ("Angular" \in sel => dens /\ delta)
                   /\ ("Fisher" \in sel => res)
End == /\ phase = "run" /\ failed = {} /\ Everything /\ phase' = "ended"
       /\ UNCHANGED <<sel, mode, jobs, sent, done, failed, dens, delta, res>>
Abort == /\ phase = "run" /\ failed # {} /\ phase' = "aborted"
         /\ UNCHANGED <<sel, mode, jobs, sent, done, failed, dens, delta, res>>

\* the guarantees
StageOrder == \A s \in StageSet : (\E j \in jobs[s] : <<s, j>> \in sent \cup done \cup failed)
                                    => \A t \in Before(s) \cap sel : Complete(t)
NothingAfterFailure == failed # {} => /\ ~res
                                      /\ \A f \in failed : \A s \in StageSet :
                                            f[1] \in Before(s) => ~\E j \in jobs[s] : <<s, j>> \in sent \cup done
NothingWhenDisabled == mode = "no" => done = {} /\ sent = {} /\ failed = {} /\ ~delta /\ ~res
EndedMeansComplete == (phase = "ended" /\ mode # "no") => \A s \in sel : Complete(s)
OnlySelected == \A s \in StageSet \ sel : ~\E j \in jobs[s] : <<s, j>> \in sent \cup done \cup failed
SubmitterProducts == /\ (delta => Complete("Angular")) /\ (res => Complete("Fisher"))
                     /\ ((\E j \in jobs["Angular"] : <<"Angular", j>> \in done) => dens)
                     /\ (("Angular" \in sel /\ \E j \in jobs["Derivative"] : <<"Derivative", j>> \in done) => delta)
=============================================================================
