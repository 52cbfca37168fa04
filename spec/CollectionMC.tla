----------------------------- MODULE CollectionMC -----------------------------
EXTENDS Collection
CONSTANTS MaxRows
Kinds == {{"[WL]", "[GCsp(Pk)]"}, {"[WL]"}, {"[WL]", "[GCsp(Pk)]", "[WL] + [GCsp(Pk)]"}}
Opts == [n_sp_bins : {"4", "12", "2"}, scenario : {"optimistic", "pessimistic"}, gcph_minus_gcsp : {"True", "False"}]
N(x) == CASE x = "[WL]" -> 1 [] x = "[GCsp(Pk)]" -> 2 [] OTHER -> 3
\* bounded: options with a flag only for the optimistic scenario
SomeOpts == {o \in Opts : (o.gcph_minus_gcsp = "True") => (o.scenario = "optimistic" /\ o.n_sp_bins # "2")}
VARIABLES rows, ids, last
cvars == <<rows, ids, last>>
Own(i, x) == 10 * i + N(x)
Frame(os, ks) == [i \in DOMAIN os |-> RowOf(os[i], [x \in ks[i] |-> Own(i, x)])]
MCInit == /\ \E n \in 1..MaxRows : \E os \in [1..n -> SomeOpts], ks \in [1..n -> Kinds] :
                /\ \A i, j \in 1..n : i < j => os[i] # os[j]
                /\ \A i \in 1..n - 1 : os[i].scenario = os[i + 1].scenario \/ n < 3
                /\ rows = Frame(os, ks)
          /\ ids = rows /\ last = <<>>
Queries == {[scenario |-> "optimistic"], [n_sp_bins |-> "4"], [gcph_minus_gcsp |-> "False"], [scenario |-> "pessimistic", n_sp_bins |-> "12"],
            [n_sp_bins |-> "2", gcph_minus_gcsp |-> "False"]}
Subsets == {{}, {"[WL]"}, {"[GCsp(Pk)]"}, {"[GCsp(Pk)]", "[WL]"}}
Replace == /\ rows' = IF Replaceable(rows) THEN Replaced(rows) ELSE rows
           /\ last' = [op |-> "replace", ok |-> Replaceable(rows), may |-> Complete(rows),
                       tab |-> [before |-> Lines(rows, "err"), ok |-> LinesReplaceable(Lines(rows, "err")),
                                after |-> IF LinesReplaceable(Lines(rows, "err")) THEN LinesReplaced(Lines(rows, "err")) ELSE {}]]
Query(q, xs) == /\ rows' = rows
                /\ last' = [op |-> "query", q |-> q, names |-> xs, ok |-> Selectable(rows, q, xs),
                            got |-> IF Selectable(rows, q, xs) THEN Selected(rows, q, xs) ELSE <<>>]
Next == /\ (Replace \/ \E q \in Queries, xs \in Subsets : Query(q, xs))
        /\ UNCHANGED ids
Spec == MCInit /\ [][Next]_cvars
Hide == <<rows, ids>>

\* everything is the forecast's own, except hybrid matrices, which may be those of the equivalent with 4 bins
OwnExceptHybrids == \A i \in DOMAIN rows : \A x \in DOMAIN rows[i].mats :
    \/ rows[i].mats[x] = Own(i, x)
    \/ Hybrid(x) /\ rows[i].opts.n_sp_bins # "4" /\ \E j \in Equivalents(rows, rows[i].opts) : rows[i].mats[x] = Own(j, x)
TablesFollow == \A i \in DOMAIN rows : rows[i].err = rows[i].mats /\ rows[i].rel = rows[i].mats
FourBinsKept == \A i \in DOMAIN rows : rows[i].opts.n_sp_bins = "4" => rows[i] = ids[i]
NothingLost == Len(rows) = Len(ids) /\ \A i \in DOMAIN rows : rows[i].opts = ids[i].opts /\ DOMAIN rows[i].mats = DOMAIN ids[i].mats
Idempotent == Replaceable(rows) => /\ Replaceable(Replaced(rows)) /\ Replaced(Replaced(rows)) = Replaced(rows)
\* a selection that does not look at the number of bins commutes with the replacement
Commutes == Replaceable(rows) => \A q \in {p \in Queries : "n_sp_bins" \notin DOMAIN p} :
    Replaced(Selected(rows, q, {})) = Selected(Replaced(rows), q, {})
\* the table of the replaced analyses is the replaced table of the analyses
TableAgrees == /\ Replaceable(rows) <=> LinesReplaceable(Lines(rows, "err"))
               /\ Replaceable(rows) => Lines(Replaced(rows), "err") = LinesReplaced(Lines(rows, "err"))

Emit == Out("T", [pre |-> rows, act |-> last', post |-> rows'])

\* ---------------------------------------------------------------- names
Names == {"run_optimistic", "run_pessimistic_12", "runs_optimistic", "run_opt", "my_run_optimistic", "optimistic_4_sp_bins_x",
          "optimistic_4_sp_bins", "pessimistic_12_sp_bins_y", "optimistic__sp_bins_x", "x_optimistic_4_sp_bins_x",
          "scenario_optimistic__n_sp_bins_4", "scenario_pessimistic__n_sp_bins_40__shot", "scenario_optimistic_n_sp_bins_4",
          "scenario_optimistic__n_sp_bins_", "scenario_medium__n_sp_bins_4", "Angular", "scenario_optimistic__n_sp_bins_12__n_sp_bins_4", ""}
OneReading == \A s \in Names : Cardinality({f \in {Plain(s), Short(s), Long(s)} : f # Nothing}) <= 1
Read == [s \in Names |-> Told(s)]
NInit == rows = <<>> /\ ids = <<>> /\ last = <<>>
NNext == /\ last = <<>> /\ last' = <<1>> /\ UNCHANGED <<rows, ids>>
NSpec == NInit /\ [][NNext]_cvars
NEmit == Out("N", Read)
=============================================================================
