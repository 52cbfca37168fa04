------------------------------- MODULE Editor -------------------------------
(***************************************************************************)
(* Editing forecast configurations, and comparing them.                      *)
(* An option set is a function from option names to tokens ("true", "4",     *)
(* "optimistic" ...); a faulty token stands for a value of the wrong type or  *)
(* outside the documented range.  The edited configuration is described by    *)
(* its difference from the shipped one: a set of <<path, value>>.             *)
(***************************************************************************)
EXTENDS Kit

Flags == {"gcph_minus_gcsp", "shot_noise_sp_reduced", "gcph_only_bins_in_spectro_range"}
OptNames == Flags \cup {"scenario", "n_sp_bins"}
Scenarios == {"optimistic", "pessimistic"}
BinNumbers == {"4", "12", "24", "40"}
Bools == {"true", "false"}

Accepted(o) ==
    /\ DOMAIN o = OptNames
    /\ o["scenario"] \in Scenarios
    /\ o["n_sp_bins"] \in BinNumbers
    /\ \A f \in Flags : o[f] \in Bools
    /\ ~(o["gcph_minus_gcsp"] = "true" /\ o["gcph_only_bins_in_spectro_range"] = "true")
Valid == {o \in [OptNames -> Scenarios \cup BinNumbers \cup Bools] : Accepted(o)}

\* options recorded in the configuration as soon as it exists
Recorded(o) == {<<"synthetic_opts/" \o k, o[k]>> : k \in OptNames}
\* what the options mean for the data
Grid(p, o) == {<<"probes/" \o p \o "/l_min", "10">>,
               <<"probes/" \o p \o "/l_max", IF o["scenario"] = "pessimistic" THEN "750" ELSE "3000">>,
               <<"probes/" \o p \o "/log_l_number", "100">>, <<"probes/" \o p \o "/ell_log_selection", "true">>}
GCph(o) == IF o["gcph_minus_gcsp"] = "true"
           THEN {<<"probes/GCph/density_file", "gcph_dndz_redbook_gcsp_subtracted.h5">>}
           ELSE LET s == IF o["gcph_only_bins_in_spectro_range"] = "true" THEN "_only_bins_in_spectro_range.h5" ELSE ".h5" IN
                {<<"probes/GCph/density_file", "gcph_dndz_redbook" \o s>>, <<"probes/GCph/bias_file", "gcph_bias_piecewise" \o s>>}
GCsp(o) == {<<"probes/GCsp/density_file", "gcsp_dndz_" \o o["n_sp_bins"] \o "_bins.h5">>,
            <<"probes/GCsp/bias_file", "gcsp_bias_piecewise_" \o o["n_sp_bins"] \o "_bins.h5">>}
WL(o) == {<<"probes/WL/ell_external_filename",
            IF o["scenario"] = "pessimistic" THEN "wl_pess_ells_10_750_log_nell_100_and_750_1500_lin.txt"
            ELSE "wl_optm_ells_10_3000_log_nell_100_and_3000_5000_lin.txt">>}
Applied(o) == Grid("GCph", o) \cup Grid("GCsp", o) \cup GCph(o) \cup GCsp(o) \cup WL(o)
Edits(o, applied) == Recorded(o) \cup IF applied THEN Applied(o) ELSE {}
Paths(es) == {e[1] : e \in es}

\* ---- the workshop: option sets held by the caller, editors, written files
VARIABLES dicts, eds, files, op
NONE == <<>>
evars == <<dicts, eds, files, op>>
Act(s, a) == op' = [s |-> s, a |-> a]
Choose(d, o) == dicts' = [dicts EXCEPT ![d] = o] /\ UNCHANGED <<eds, files>> /\ Act("choose", <<d>>)
\* the caller changes one option in its own dictionary, after an editor may have been made from it
Mutate(d, k, v) == /\ k \in DOMAIN dicts[d] /\ dicts[d][k] # v
                   /\ dicts' = [dicts EXCEPT ![d][k] = v] /\ UNCHANGED <<eds, files>> /\ Act("mutate", <<d, k, v>>)
Make(e, d) == /\ dicts[d] # NONE
              /\ eds' = IF Accepted(dicts[d]) THEN [eds EXCEPT ![e] = [opts |-> dicts[d], applied |-> FALSE]] ELSE eds
              /\ UNCHANGED <<dicts, files>> /\ Act(IF Accepted(dicts[d]) THEN "make" ELSE "refuse", <<e, d>>)
Apply(e) == /\ eds[e] # NONE /\ eds' = [eds EXCEPT ![e].applied = TRUE]
            /\ UNCHANGED <<dicts, files>> /\ Act("apply", <<e>>)
\* the file of an option set is the one of every equal option set
Write(e) == /\ eds[e] # NONE
            /\ files' = [o \in DOMAIN files \cup {eds[e].opts} |-> IF o = eds[e].opts THEN eds[e].applied ELSE files[o]]
            /\ UNCHANGED <<dicts, eds>> /\ Act("write", <<e>>)

\* ---- forecasts as the comparison sees them
\* a forecast: global fields, and for every probe either absent or its own fields
SameForecast(c, d) ==
    /\ c.global = d.global
    /\ \A p \in DOMAIN c.probes : /\ c.probes[p].present = d.probes[p].present
                                  /\ c.probes[p].present = "true" => c.probes[p] = d.probes[p]
=============================================================================
