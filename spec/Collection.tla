------------------------------ MODULE Collection ------------------------------
(* Collection of the results of finished forecasts.                           *)
(*                                                                            *)
(* A forecast has its options and, per cosmology and treatment of the         *)
(* nuisance parameters, its Fisher matrices.  A matrix is stood for by an     *)
(* identifier; the errors found with it are those of the identifier. The       *)
(* values of options are given as text.                                       *)
EXTENDS Kit

\* ------------------------------------------------------------------ names
Sub(s, i, j) == IF i > j \/ i > Len(s) THEN "" ELSE SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)
At(s, i, p) == i >= 1 /\ i + Len(p) - 1 <= Len(s) /\ Sub(s, i, i + Len(p) - 1) = p
Starts(s, p) == At(s, 1, p)
Ends(s, p) == At(s, Len(s) - Len(p) + 1, p)
Includes(s, p) == \E i \in 1..Len(s) : At(s, i, p)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE EndOfDigits(_, _)
EndOfDigits(s, i) == IF i <= Len(s) /\ Sub(s, i, i) \in Digits THEN EndOfDigits(s, i + 1) ELSE i
NumberAt(s, i) == Sub(s, i, EndOfDigits(s, i) - 1)
ScenarioAt(s, i) == IF At(s, i, "optimistic") THEN "optimistic" ELSE IF At(s, i, "pessimistic") THEN "pessimistic" ELSE ""

\* what the name of a directory says of its forecast; Nothing when it does not name one
Nothing == <<>>
Plain(s) == LET sc == ScenarioAt(s, 5) IN IF Starts(s, "run_") /\ sc # "" THEN [scenario |-> sc] ELSE Nothing
Short(s) == LET sc == ScenarioAt(s, 1)
                k == Len(sc) + 2
                n == NumberAt(s, k) IN
            IF sc # "" /\ At(s, k - 1, "_") /\ n # "" /\ At(s, k + Len(n), "_sp_bins_")
            THEN [scenario |-> sc, nbins |-> n] ELSE Nothing
Long(s) == LET sc == ScenarioAt(s, 1 + Len("scenario_"))
               k == 1 + Len("scenario_") + Len(sc)
               n == NumberAt(s, k + Len("__n_sp_bins_")) IN
           IF Starts(s, "scenario_") /\ sc # "" /\ At(s, k, "__n_sp_bins_") /\ n # ""
           THEN [scenario |-> sc, nbins |-> n] ELSE Nothing
Told(s) == IF Plain(s) # Nothing THEN Plain(s) ELSE IF Short(s) # Nothing THEN Short(s) ELSE Long(s)

\* dirs: sequence of [at: path of the parent below the root, name]
Wanted(sel, name) ==
    /\ Told(name) # Nothing
    /\ \A i \in DOMAIN sel.containing : Includes(name, sel.containing[i])
    /\ \A i \in DOMAIN sel.without : ~Includes(name, sel.without[i])
    /\ \A i \in DOMAIN sel.ending : Ends(name, sel.ending[i])
    /\ \A i \in DOMAIN sel.patterns : \E j \in DOMAIN sel.patterns[i] : Includes(name, sel.patterns[i][j])
Found(dirs, sel) == {d \in SetOf(dirs) : (sel.recursive \/ d.at = "") /\ Wanted(sel, d.name)}
PathOf(d) == IF d.at = "" THEN d.name ELSE d.at \o "/" \o d.name

\* ------------------------------------------------------------------ analyses
\* a row: [opts, mats, err, rel], the last three functions from names of matrices to identifiers
RowOf(opts, mats) == [opts |-> opts, mats |-> mats, err |-> mats, rel |-> mats]
Hybrid(x) == Includes(x, "GCsp(Pk)")
Hybrids(r) == {x \in DOMAIN r.mats : Hybrid(x)}
With4(o) == [o EXCEPT !.n_sp_bins = "4"]
Equivalents(rows, o) == {j \in DOMAIN rows : rows[j].opts = With4(o)}
Needs(r) == r.opts.n_sp_bins # "4" /\ Hybrids(r) # {}
Replaceable(rows) == \A i \in DOMAIN rows : Needs(rows[i]) =>
    /\ Cardinality(Equivalents(rows, rows[i].opts)) = 1
    /\ \A j \in Equivalents(rows, rows[i].opts) : Hybrids(rows[i]) \subseteq DOMAIN rows[j].mats
\* rows with other numbers of bins and no equivalent at all need not be accepted
Complete(rows) == \A i \in DOMAIN rows : rows[i].opts.n_sp_bins # "4" => Equivalents(rows, rows[i].opts) # {}
ReplacedRow(rows, r) ==
    IF ~Needs(r) THEN r
    ELSE LET four == rows[CHOOSE j \in Equivalents(rows, r.opts) : TRUE]
             take(f, g) == [x \in DOMAIN f |-> IF Hybrid(x) THEN g[x] ELSE f[x]] IN
         [r EXCEPT !.mats = take(@, four.mats), !.err = take(@, four.err), !.rel = take(@, four.rel)]
Replaced(rows) == [i \in DOMAIN rows |-> ReplacedRow(rows, rows[i])]

Agrees(o, q) == \A k \in DOMAIN q : o[k] = q[k]
Keep(f, xs) == [x \in xs |-> f[x]]
OnlyOf(r, xs) == [r EXCEPT !.mats = Keep(@, xs), !.err = Keep(@, xs), !.rel = Keep(@, xs)]
\* xs = {} stands for no restriction
Selectable(rows, q, xs) == \A i \in DOMAIN rows : Agrees(rows[i].opts, q) => xs \subseteq DOMAIN rows[i].mats
Selected(rows, q, xs) ==
    LET s == SelectSeq(rows, LAMBDA r : Agrees(r.opts, q)) IN
    [i \in DOMAIN s |-> IF xs = {} THEN s[i] ELSE OnlyOf(s[i], xs)]

\* ------------------------------------------------------------------ tables
\* a line: [opts, fisher, id]
Lines(rows, col) == UNION {{[opts |-> rows[i].opts, fisher |-> x, id |-> (IF col = "rel" THEN rows[i].rel ELSE rows[i].err)[x]] :
                                x \in DOMAIN rows[i].mats} : i \in DOMAIN rows}
LineNeeds(l) == l.opts.n_sp_bins # "4" /\ Hybrid(l.fisher)
LineEquivalents(tab, l) == {k \in tab : k.fisher = l.fisher /\ k.opts = With4(l.opts)}
LinesReplaceable(tab) == \A l \in tab : LineNeeds(l) => Cardinality(LineEquivalents(tab, l)) = 1
LinesReplaced(tab) == {IF LineNeeds(l) THEN [l EXCEPT !.id = (CHOOSE k \in LineEquivalents(tab, l) : TRUE).id] ELSE l : l \in tab}
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in SetOf(s) \cup SetOf(t) :
    Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})
=============================================================================
