----------------------------- MODULE RunDirsMC -----------------------------
EXTENDS RunDirs
CONSTANTS MaxOps, Uniform
VARIABLE n
vs == <<rvars, n>>
MCHas == [E1 |-> <<"PowerSpectrum", "Angular", "delta">>, E2 |-> <<"Angular">>]
Givens(r, sel) == {g \in [StageSet -> {None} \cup (Trees \ {r})] :
                      /\ \A s \in sel : g[s] \in {None, "E1"}
                      /\ (Uniform => \A s, t \in StageSet \ sel : g[s] = g[t])}
Usable(g) == \A s \in StageSet : g[s] \in RunSet => g[s] \in exists \ dead
Tr(op, r, sel, g, out) == [pre |-> [x |-> exists, s |-> slot, d |-> delta, dead |-> dead],
                           op |-> [op |-> op, r |-> r, sel |-> sel, g |-> g], out |-> out,
                           post |-> [x |-> exists', s |-> slot', d |-> delta', dead |-> dead']]
Sels == {s \in SUBSET StageSet : TRUE}
MCNext ==
    /\ n < MaxOps /\ n' = n + 1
    /\ \E r \in RunSet, sel \in Sels : \E g \in Givens(r, sel) :
          /\ Usable(g) /\ (r = "R2" => "R1" \in exists)
          /\ \/ New(r, sel, g, TRUE, "i") /\ Out("T", Tr("new", r, sel, g, Outcome(NoSlots, sel, g)))
             \/ (r = "R1" /\ Replace(r, sel, g, TRUE, "i") /\ g["PowerSpectrum"] \in {None, "E1"} /\ g["Angular"] \in {None, "E1"}
                 /\ Out("T", Tr("replace", r, sel, g, Outcome(NoSlots, sel, g))))
             \/ Rerun(r, sel, g, TRUE) /\ Out("T", Tr("rerun", r, sel, g, Outcome(slot[r], sel, g)))
MCInit == RInit /\ n = 0
Spec == MCInit /\ [][MCNext]_vs
View == <<exists, slot, delta, writers, dead, rec, n>>
=============================================================================
