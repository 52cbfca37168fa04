--------------------------- MODULE MultipolesMC ---------------------------
EXTENDS Multipoles
CONSTANTS NP, NG
VARIABLES last
xvars == <<cfg, last>>

\* linear and logarithmic grids that meet, nest, miss each other or disagree, and files in any order
Menu == << Lin(1, 5), Lin(3, 7), Log(1, 2, 4), Log(2, 2, 2),
           File(<< <<9, 2>>, <<3, 2>>, <<7, 2>>, <<6, 4>>, <<12, 6>> >>),
           File(<< <<7, 2>> >>), Lin(9, 9),
           Lin(6, 9), Log(1, 3, 2), File(<< <<3, 4>>, <<5, 2>>, <<5, 2>>, <<24, 16>> >>),
           File(<< <<30, 6>>, <<13, 2>> >>), Lin(1, 12) >>
G == {Menu[i] : i \in 1..NG} \cup {Absent}
P == 1..NP

MCInit == cfg = [p \in P |-> Menu[1]] /\ last = <<"init">>
MCNext == \E p \in P, i \in 0..NG :
            LET g == IF i = 0 THEN Absent ELSE Menu[i] IN
            /\ cfg[p] # g /\ DoEdit(p, g) /\ last' = <<"edit", p, g>>
Spec == MCInit /\ [][MCNext]_xvars
View == cfg

Pairwise == Usable(cfg) =>
    \A p \in Present(cfg), q \in Present(cfg) :
        /\ PairOut(cfg[p], cfg[q]) = PairOut(cfg[q], cfg[p])
        /\ PairOut(cfg[p], cfg[q]) = "ok" => PairRows(cfg[p], cfg[q]) = PairRows(cfg[q], cfg[p])
        /\ PairOut(cfg[p], cfg[p]) = "ok" /\ PairRows(cfg[p], cfg[p]) = Rows(cfg[p])
        /\ \A i \in 1..(Len(PairRows(cfg[p], cfg[q])) - 1) : PairRows(cfg[p], cfg[q])[i][1] < PairRows(cfg[p], cfg[q])[i + 1][1]
\* jointly or alone, once
Partition == Usable(cfg) =>
    \A S \in (SUBSET Present(cfg)) \ {{}} : \A p \in S :
        /\ Alone(cfg, S, p) \cup Common(cfg, S) = Ells(cfg[p])
        /\ Alone(cfg, S, p) \cap Common(cfg, S) = {}
        /\ \A T \in SUBSET S : T # {} => Common(cfg, S) \subseteq Common(cfg, T)
\* an edit reaches only the pairs of the edited probe
EditLocal == [][\A p \in P : (last'[1] = "edit" /\ last'[2] = p) =>
                  \A q \in Present(cfg), r \in Present(cfg) : (q # p /\ r # p) =>
                        PairRows(cfg[q], cfg[r]) = PairRows(cfg'[q], cfg'[r])]_xvars

St(c) == LET pr == Present(c) IN
    [g |-> c, ok |-> Usable(c),
     pairs |-> IF ~Usable(c) THEN {} ELSE
               {[a |-> p, b |-> q, out |-> PairOut(c[p], c[q]), rows |-> PairRows(c[p], c[q])] : p \in pr, q \in pr},
     alone |-> IF ~Usable(c) \/ ~Compatible(c) THEN {} ELSE
               UNION {{[s |-> S, p |-> p, l |-> Alone(c, S, p)] : p \in S} : S \in (SUBSET pr) \ {{}}}]
Emit == Out("T", [pre |-> [g |-> cfg], act |-> last', post |-> St(cfg')])
=============================================================================
