------------------------------- MODULE BatchMC -------------------------------
EXTENDS Batch
CONSTANTS Own, Foreign, Sts
MCInit == /\ mine = Own /\ seen = {} /\ phase = "wait" /\ polls = 0
          /\ world \in {w \in [Own \cup Foreign -> Sts] : \A j \in Own : w[j] \in {"unlisted", "PEND"}}
MCNext == \E w \in [Own \cup Foreign -> Sts] :
            /\ \A j \in Own : CanBecome(world[j], w[j])
            /\ \A j \in Foreign : w[j] = world[j]
            /\ Poll(w)
View == <<world, mine, seen, phase, IF Patience = 0 THEN 0 ELSE polls>>
Spec == MCInit /\ [][MCNext]_bvars
\* a batch system that runs everything successfully and keeps finished jobs listed until they were looked at
\* releases the waiter
Cooperative == \A j \in Own : CanBecome(world[j], world'[j]) /\ ~Failed(world'[j])
                              /\ (world'[j] = "gone_done" => j \in seen)
LiveSpec == MCInit /\ [][MCNext /\ Cooperative]_bvars /\ WF_bvars(MCNext /\ Cooperative /\ \A j \in Own : world'[j] = "DONE" \/ j \in seen)
Released == <>(phase = "over")
Emit == Out("T", [lvl |-> TLCGet("level"), pre |-> [w |-> world, s |-> seen, p |-> phase],
                  act |-> world', post |-> [w |-> world', s |-> seen', p |-> phase']])
=============================================================================
