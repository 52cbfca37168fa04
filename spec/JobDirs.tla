------------------------------ MODULE JobDirs ------------------------------
(***************************************************************************)
(* Job directories of the power-spectrum and angular stages: one directory  *)
(* per (parameter, step), whose name alone identifies the pair, and the     *)
(* listings / lookups by which the other stages find them.                  *)
(***************************************************************************)
EXTENDS Params

StepStr(k) == IF k = 0 THEN "0" ELSE IF k < 0 THEN "m_" \o ToString(-k) ELSE "p_" \o ToString(k)
DirName(p, k) == "dvar_" \o p \o "_step_" \o StepStr(k)

\* the pairs a run over parameters P with an n-step stencil can have
Pairs(P, n) == {<<"central", 0>>} \cup {<<p, k>> : p \in P, k \in {j \in -n..n : j # 0}}

\* names determine pairs
Injective(P, n) == \A a \in Pairs(P, n), b \in Pairs(P, n) :
                        DirName(a[1], a[2]) = DirName(b[1], b[2]) => a = b
PairOf(name, P, n) == CHOOSE a \in Pairs(P, n) : DirName(a[1], a[2]) = name
NamesPair(name, P, n) == \E a \in Pairs(P, n) : DirName(a[1], a[2]) = name

-----------------------------------------------------------------------------
VARIABLES have, query     \* have: set of [st, p, k, files]  (st "pmm"/"cl"/"der"); one entry per directory
jvars == <<have, query>>

DirOf(st, p, k) == {d \in have : d.st = st /\ d.p = p /\ d.k = k}
Exists(st, p, k) == DirOf(st, p, k) # {}

MakeDir(st, p, k) == /\ ~Exists(st, p, k)
                     /\ have' = have \cup {[st |-> st, p |-> p, k |-> k, files |-> 0]}
PutFile(st, p, k, n) == /\ Exists(st, p, k)
                        /\ have' = (have \ DirOf(st, p, k)) \cup {[d EXCEPT !.files = n] : d \in DirOf(st, p, k)}
Drop(st, p, k) == /\ Exists(st, p, k) /\ have' = have \ DirOf(st, p, k)

\* what the lookups must answer
Variations == {<<d.p, d.k>> : d \in {x \in have : x.st = "cl" /\ x.p # "central"}}
ClParams == {v[1] : v \in Variations}
PmmParams == {d.p : d \in {x \in have : x.st = "pmm"}}
DerParams == {d.p : d \in {x \in have : x.st = "der"}}
\* a spectra file is returned only when exactly one is there
FileOf(st, p, k) == IF \E d \in DirOf(st, p, k) : d.files = 1 THEN "found" ELSE "error"
\* the samples a derivative is fitted on: all files of that parameter, and the central one, by increasing step
Samples(p) ==
    LET own == {d \in have : d.st = "cl" /\ d.p = p /\ d.files > 0}
        ks == SetToSortSeq({d.k : d \in own} \cup {0}, LAMBDA a, b : a < b)
    IN IF FileOf("cl", "central", 0) = "error" \/ own = {} THEN <<"error">>
       ELSE FoldLeft(LAMBDA acc, k : acc \o [i \in 1..(IF k = 0 THEN 1 ELSE (CHOOSE d \in own : d.k = k).files) |-> k],
                     <<>>, ks)
=============================================================================
