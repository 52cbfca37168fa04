---------------------------- MODULE DataVectors ----------------------------
(***************************************************************************)
(* Data vectors: sequences of probe-pair spectra, and their written forms.   *)
(* A data vector is its sequence of ordered pairs (the written forms keep     *)
(* even a repeated one); the spelling its entries currently have is no part   *)
(* of it.                                                                     *)
(***************************************************************************)
EXTENDS ProbeKeys

Join(s, sep) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA acc, x : acc \o sep \o x, s[1], Tail(s))
NameOfDv(v) == "[" \o Join([i \in DOMAIN v |-> FisherSpell(v[i][1], v[i][2])], "+") \o "]"
BriefOf(v) == Join([i \in DOMAIN v |-> ShortN[v[i][1]] \o ShortN[v[i][2]]], "_")
FileOf(v) == "fisher_" \o BriefOf(v) \o ".hdf5"
StringOf(v) == NameOfDv(v) \o ": [" \o Join([i \in DOMAIN v |-> "'" \o ShortN[v[i][1]] \o ShortN[v[i][2]] \o "'"], ", ") \o "]"
SingleAuto(v) == Len(v) = 1 /\ v[1][1] = v[1][2]
\* the probes whose own spectrum belongs to it
OwnProbes(v) == {v[i][1] : i \in {j \in DOMAIN v : v[j][1] = v[j][2]}}
Distinct(v) == NoDup(v)

\* the selection for a forecast: distinct, the single-probe vectors first
GoodSelection(s) == /\ NoDup(s)
                    /\ \A i \in DOMAIN s : Distinct(s[i]) /\ s[i] # <<>>
                    /\ \A i, j \in DOMAIN s : (SingleAuto(s[j]) /\ i < j) => SingleAuto(s[i])
                    /\ \E i \in DOMAIN s : SingleAuto(s[i])

VARIABLE dvs       \* id -> sequence of ordered pairs
dvars == <<kvars, dvs>>
Make(i, v) == dvs' = [x \in DOMAIN dvs \cup {i} |-> IF x = i THEN v ELSE dvs[x]]
=============================================================================
