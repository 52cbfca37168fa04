------------------------------ MODULE EditorMC ------------------------------
EXTENDS Editor
CONSTANTS NE, MaxOps
Dicts == 1..2
Editors == 1..NE
Mk(s, n, a, b, c) == [k \in OptNames |-> CASE k = "scenario" -> s [] k = "n_sp_bins" -> n [] k = "gcph_minus_gcsp" -> a
                                          [] k = "shot_noise_sp_reduced" -> b [] OTHER -> c]
Some == {Mk("optimistic", "4", "false", "false", "false"), Mk("pessimistic", "4", "false", "true", "true"),
         Mk("optimistic", "12", "true", "false", "false")}
Faulty == {Mk("optimistic", "4", "true", "false", "true"), Mk("optimistic", "5", "false", "false", "false"),
           [k \in OptNames \ {"n_sp_bins"} |-> Mk("optimistic", "4", "false", "false", "false")[k]]}
VARIABLES n, made
mvars == <<evars, n, made>>
Init == dicts = [d \in Dicts |-> NONE] /\ eds = [e \in Editors |-> NONE] /\ files = [o \in {} |-> TRUE] /\ op = NONE /\ n = 0
        /\ made = [e \in Editors |-> NONE]
Keep == UNCHANGED made
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E d \in Dicts, o \in Some \cup Faulty : Choose(d, o) /\ Keep
           \/ \E d \in Dicts : Mutate(d, "scenario", "pessimistic") /\ Keep
           \/ \E d \in Dicts : Mutate(d, "gcph_minus_gcsp", "true") /\ Keep
           \/ \E e \in Editors, d \in Dicts : /\ Make(e, d)
                                              /\ made' = IF Accepted(dicts[d]) THEN [made EXCEPT ![e] = dicts[d]] ELSE made
           \/ \E e \in Editors : (Apply(e) \/ Write(e)) /\ Keep
Spec == Init /\ [][Next]_mvars
View == <<dicts, eds, files, n, made>>

OnlyValid == /\ \A e \in Editors : eds[e] # NONE => eds[e].opts \in Valid
             /\ DOMAIN files \subseteq Valid
\* an editor keeps the options it was made with, whatever happens to the caller's dictionaries or to other editors
Independent == \A e \in Editors : eds[e] # NONE => eds[e].opts = made[e]
OthersKept == [][\A e \in Editors : eds'[e] # eds[e] => (op'.s \in {"make", "apply"} /\ op'.a[1] = e)]_mvars
\* edits are functions of paths, touch only what the options name, and tell option sets apart
WellDefined == \A o \in Valid : \A x, y \in Edits(o, TRUE) : x[1] = y[1] => x = y
Distinguishes == \A o, q \in Valid : Edits(o, FALSE) = Edits(q, FALSE) => o = q
Untouched == \A o \in Valid : \A x \in Edits(o, TRUE) :
    /\ (o["gcph_minus_gcsp"] = "true" => x[1] # "probes/GCph/bias_file")
    /\ x[1] \notin {"survey/f_sky", "cosmology/flat", "probes/WL/l_max", "probes/WL/density_file", "probes/GCph/presence_flag"}
ASSUME Cardinality(Valid) = 2 * 4 * 6
ASSUME WellDefined /\ Distinguishes /\ Untouched

ShowE(x) == IF x = NONE THEN [made |-> "no", edits |-> {}] ELSE [made |-> "yes", edits |-> Edits(x.opts, x.applied)]
Emit == Out("T", [pre |-> [dicts |-> dicts, eds |-> eds, files |-> {[o |-> o, a |-> files[o]] : o \in DOMAIN files}],
                  op |-> op', post |-> [dicts |-> dicts', eds |-> eds', files |-> {[o |-> o, a |-> files'[o]] : o \in DOMAIN files'}],
                  edits |-> [e \in Editors |-> ShowE(eds'[e])],
                  written |-> {[o |-> o, edits |-> Edits(o, files'[o])] : o \in DOMAIN files'}])
=============================================================================
