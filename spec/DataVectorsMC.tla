--------------------------- MODULE DataVectorsMC ---------------------------
EXTENDS DataVectors
CONSTANTS PP, MaxLen

Pairs == PP \X PP
MCInit == dvs = [x \in {1} |-> <<>>] /\ d = <<>> /\ transposing = FALSE /\ last = <<"init">>
MCNext == /\ UNCHANGED <<d, transposing>>
          /\ \E p \in Pairs : /\ Len(dvs[1]) < MaxLen
                              /\ Make(1, Append(dvs[1], p)) /\ last' = <<"append", p>>
Spec == MCInit /\ [][MCNext]_dvars
View == dvs

Small == UNION {[1..n -> Pairs] : n \in 1..2}
V == dvs[1]
\* every form gives the data vector back: no other (small) vector has it
FormsIdentify == V # <<>> => \A w \in Small : w # V =>
                     NameOfDv(w) # NameOfDv(V) /\ BriefOf(w) # BriefOf(V) /\ StringOf(w) # StringOf(V) /\ FileOf(w) # FileOf(V)
Own == OwnProbes(V) \subseteq PP /\ (SingleAuto(V) => Cardinality(OwnProbes(V)) = 1)

Emit == Out("T", [v |-> dvs'[1], name |-> NameOfDv(dvs'[1]), brief |-> BriefOf(dvs'[1]), str |-> StringOf(dvs'[1]),
                  file |-> FileOf(dvs'[1]),
                  single |-> SingleAuto(dvs'[1]), own |-> {AliasN[p] : p \in OwnProbes(dvs'[1])}])
Names == Out("K", [long |-> LongN, short |-> ShortN, alias |-> AliasN,
                   pairs |-> {[k |-> k, a |-> a, b |-> b, raw |-> Spell(k, a, b)] : k \in Kinds, a \in Probes, b \in Probes}])
ASSUME Names
=============================================================================
