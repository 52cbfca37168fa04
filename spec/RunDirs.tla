------------------------------ MODULE RunDirs ------------------------------
(* Run directories: what each stage of a run resolves to, who writes where, *)
(* and what is recorded.  Property P05.                                     *)
EXTENDS Kit
CONSTANTS StageSet, RunSet, ExtSet,
          ExtHas,        \* external tree -> stages it contains ("delta" for the covariance inputs)
          WritesThrough  \* fault switch of the model: TRUE lets a stage write into what it is linked to
VARIABLES exists, slot, delta, writers, rec, dead
rvars == <<exists, slot, delta, writers, rec, dead>>
None == "none"
Own == "own"
Trees == RunSet \cup ExtSet
NoSlots == [s \in StageSet |-> None]
RInit == /\ exists = {} /\ slot = [r \in RunSet |-> NoSlots] /\ delta = [r \in RunSet |-> None]
         /\ writers = [t \in Trees |-> {}] /\ rec = [r \in RunSet |-> None] /\ dead = {}

\* following links
RECURSIVE Resolve(_, _, _)
Resolve(sl, t, s) == IF t \in ExtSet THEN IF s \in SetOf(ExtHas[t]) THEN t ELSE None
                     ELSE IF sl[t][s] = Own THEN t
                     ELSE IF sl[t][s] = None THEN None ELSE Resolve(sl, sl[t][s], s)
RECURSIVE HasDelta(_)
HasDelta(t) == IF t \in ExtSet THEN "delta" \in SetOf(ExtHas[t])
               ELSE IF delta[t] \in {Own, None} THEN delta[t] = Own ELSE HasDelta(delta[t])
IsLink(x) == x \notin {Own, None}

\* g: absent stage -> tree given for it ("none": not given); old: what is there already
\* the Fisher stage writes its matrices into the run directory itself and has no directory of its own
Wanted(old, sel, g) == [s \in StageSet |-> IF s \in sel THEN IF s = "Fisher" THEN old[s] ELSE Own
                                           ELSE IF old[s] # None THEN old[s]
                                           ELSE g[s]]
Missing(old, sel, g) == \E s \in StageSet \ sel :
                            /\ old[s] = None /\ g[s] # None
                            /\ \/ Resolve(slot, g[s], s) = None
                               \/ s = "Angular" /\ ~HasDelta(g[s])
Refused(old, sel) == ~WritesThrough /\ \E s \in sel \ {"Fisher"} : IsLink(old[s])
Outcome(old, sel, g) == IF Refused(old, sel) THEN "FileExistsError"
                        ELSE IF Missing(old, sel, g) THEN "FileNotFoundError" ELSE "ok"
NewDelta(olds, oldd, sel, g, ex) ==
    IF "Angular" \in sel THEN IF ex THEN Own ELSE oldd
    ELSE IF "Angular" \in StageSet /\ olds["Angular"] = None /\ g["Angular"] # None THEN g["Angular"] ELSE oldd
\* the trees written by executing the selected stages
Written(sl, r, sel, ex) == {r} \cup (IF ex THEN {IF IsLink(sl[r][s]) /\ s # "Fisher" THEN Resolve(sl, r, s) ELSE r : s \in sel} ELSE {})
Links(r) == \E q \in exists \ {r} : delta[q] = r \/ \E s \in StageSet : slot[q][s] = r

Do(r, olds, oldd, sel, g, ex) ==
    LET o == Outcome(olds, sel, g)
        sl == [slot EXCEPT ![r] = IF WritesThrough
                                  THEN [s \in StageSet |-> IF IsLink(olds[s]) THEN olds[s] ELSE Wanted(olds, sel, g)[s]]
                                  ELSE Wanted(olds, sel, g)] IN
    /\ exists' = exists \cup {r}
    /\ IF o = "ok"
       THEN /\ slot' = sl /\ delta' = [delta EXCEPT ![r] = NewDelta(olds, oldd, sel, g, ex)] /\ UNCHANGED dead
            /\ writers' = [t \in Trees |-> IF t \in Written(sl, r, sel, ex) THEN writers[t] \cup {r} ELSE writers[t]]
       ELSE \* left half prepared; what it holds is not specified, but nothing else was touched
            /\ dead' = dead \cup {r} /\ writers' = [writers EXCEPT ![r] = @ \cup {r}]
            /\ UNCHANGED <<slot, delta>>
MayNew(r) == r \notin exists
New(r, sel, g, ex, inp) == /\ MayNew(r) /\ Do(r, NoSlots, None, sel, g, ex)
                           /\ rec' = [rec EXCEPT ![r] = inp]
\* test mode: a run directory of the same identifier is replaced by the new one
MayReplace(r) == r \in exists /\ ~Links(r)
Replace(r, sel, g, ex, inp) == /\ MayReplace(r) /\ ~\E s \in StageSet : g[s] = r
                               /\ LET o == Outcome(NoSlots, sel, g)
                                      sl == [slot EXCEPT ![r] = Wanted(NoSlots, sel, g)] IN
                                  /\ exists' = exists
                                  /\ IF o = "ok" THEN /\ slot' = sl /\ dead' = dead \ {r}
                                                      /\ delta' = [delta EXCEPT ![r] = NewDelta(NoSlots, None, sel, g, ex)]
                                                 ELSE /\ dead' = dead \cup {r} /\ slot' = [slot EXCEPT ![r] = NoSlots]
                                                      /\ delta' = [delta EXCEPT ![r] = None]
                                  /\ writers' = [writers EXCEPT ![r] = @ \cup {r}]
                               /\ rec' = [rec EXCEPT ![r] = inp]
MayRerun(r) == r \in exists \ dead
Rerun(r, sel, g, ex) == /\ MayRerun(r) /\ Do(r, slot[r], delta[r], sel, g, ex) /\ UNCHANGED rec
\* the in-process forecast: power spectra from elsewhere or put there beforehand, the rest computed in place;
\* the fiducial spectra are never computed into linked ones
CoreOutcome(g) == IF \E s \in StageSet : g[s] # None /\ Resolve(slot, g[s], s) = None THEN "FileNotFoundError" ELSE "ok"
CoreSlots(g) == [s \in StageSet |-> IF s = "Fisher" THEN None ELSE IF g[s] # None THEN g[s]
                                    ELSE IF s = "PowerSpectrum" THEN Own ELSE None]
Core(r, g, inp) == /\ MayNew(r) /\ exists' = exists \cup {r} /\ rec' = [rec EXCEPT ![r] = inp]
                   /\ writers' = [writers EXCEPT ![r] = @ \cup {r}] /\ UNCHANGED delta
                   /\ IF CoreOutcome(g) = "ok"
                      THEN slot' = [slot EXCEPT ![r] = [CoreSlots(g) EXCEPT !["Angular"] = IF @ = None THEN Own ELSE @]] /\ UNCHANGED dead
                      ELSE dead' = dead \cup {r} /\ UNCHANGED slot
\* a directory of that name is there already: nothing happens
Clash(r) == r \in exists /\ UNCHANGED rvars

ExternalIntact == \A t \in ExtSet : writers[t] = {}
OthersIntact == \A r \in RunSet : writers[r] \subseteq {r}
LinksResolve == \A r \in exists \ dead : \A s \in StageSet :
                    IsLink(slot[r][s]) => (Resolve(slot, r, s) # None \/ \E q \in dead : slot[r][s] = q)
Recorded == \A r \in exists : rec[r] # None
=============================================================================
