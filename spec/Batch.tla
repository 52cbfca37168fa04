-------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* The batch system (LSF) and the barrier the pipeline puts on a set of its *)
(* jobs.  The batch system owns the true state of every job; the waiter     *)
(* only sees, at each poll, the listing of the jobs it asks about.          *)
(***************************************************************************)
EXTENDS Kit
CONSTANT Patience          \* polls after which the waiter may give up (0: never)

VARIABLES world,     \* job -> state in the batch system
          mine,      \* the jobs being waited for
          seen,      \* jobs of mine already reported DONE
          phase,     \* "submit", "wait", "over", "failed", "gaveup"
          polls
bvars == <<world, mine, seen, phase, polls>>

Listed == {"PEND", "RUN", "PSUSP", "USUSP", "SSUSP", "UNKWN", "WAIT", "DONE", "EXIT"}
States == Listed \cup {"unlisted", "gone_done", "gone_exit"}
Rank(s) == CASE s = "unlisted" -> 0
             [] s \in {"PEND", "PSUSP", "WAIT"} -> 1
             [] s \in {"RUN", "USUSP", "SSUSP", "UNKWN"} -> 2
             [] s \in {"DONE", "EXIT"} -> 3
             [] OTHER -> 4
\* how a job may move between two looks at the batch system
CanBecome(s, t) == \/ t = s
                   \/ /\ Rank(s) < 3 /\ Rank(t) >= Rank(s)
                   \/ s = "DONE" /\ t = "gone_done"
                   \/ s = "EXIT" /\ t = "gone_exit"
Succeeded(s) == s \in {"DONE", "gone_done"}
Failed(s) == s \in {"EXIT", "gone_exit"}

\* what one poll shows of a set of jobs, and what the waiter concludes from it
Listing(w, js) == [j \in {x \in js : w[x] \in Listed} |-> w[j]]
SeenAfter(w, js, sn) == sn \cup {j \in js : w[j] = "DONE"}
Verdict(w, js, sn, n) ==
    IF SeenAfter(w, js, sn) = js THEN "over"
    ELSE IF \E j \in js : w[j] = "EXIT" THEN "failed"
    ELSE IF Patience > 0 /\ n > Patience THEN "gaveup"
    ELSE "wait"

Submit(j) == /\ phase = "submit" /\ j \notin mine
             /\ mine' = mine \cup {j}
             /\ UNCHANGED <<world, seen, phase, polls>>
Poll(w) == /\ phase = "wait"
           /\ world' = w /\ polls' = (IF Patience = 0 THEN 0 ELSE polls + 1)
           /\ seen' = SeenAfter(w, mine, seen)
           /\ phase' = Verdict(w, mine, seen, polls')
           /\ UNCHANGED mine

\* the guarantees
OverMeansAllSucceeded == (phase = "over") => \A j \in mine : Succeeded(world[j])
FailureIsReal == (phase = "failed") => \E j \in mine : Failed(world[j])
ReportedFailureStops == [][(phase = "wait" /\ \E j \in mine : world'[j] = "EXIT") => phase' # "wait"]_bvars
SeenIsTrue == \A j \in seen : Succeeded(world[j])
=============================================================================
