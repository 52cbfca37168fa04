----------------------------- MODULE Orchestrate -----------------------------
(***************************************************************************)
(* What a request for several runs launches.  A request r is what the user    *)
(* has written down: the configuration files found, the lists of directories, *)
(* the switches and resources.  Jobs(r) are the runs it stands for, each with  *)
(* the arguments that must reach it: what a launched command line says when    *)
(* the launched program reads it.                                            *)
(* A file is [path, label, bins]; its label is a sequence of words, bins the   *)
(* number of spectroscopic bins its name tells (0 if none).                   *)
(***************************************************************************)
EXTENDS Kit

Tasks == {"powerspectrum", "angular", "derivative", "fisher"}
Switches == {"verbose", "test", "keep_cl_variations", "overwrite_results"}
Resources == {"execution", "queue", "memory", "n_cores_per_job"}
Upd(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
OnOff(S, s) == IF s \in S THEN "True" ELSE "False"
FromPairs(ps) == [x \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE i \in 1..Len(ps) : ps[i][1] = x /\ \A j \in 1..Len(ps) : ps[j][1] = x => j <= i)]
Pairs(ps) == [x \in DOMAIN FromPairs(ps) |-> ps[FromPairs(ps)[x]][2]]
Chosen(r, ks) == [k \in ks |-> r.opts[k]]

\* ---- forecasts on new run directories
\* power spectra are asked for when angular coefficients are computed
Powers(r) == IF r.opts["angular"] = "True" THEN r.powers ELSE <<>>
Refused(r) ==
    \/ \A t \in Tasks : r.opts[t] # "True"
    \/ r.opts["execution"] = "none"
    \/ Len(r.pmm_cfg) # 1 \/ Len(r.der_cfg) # 1 \/ Len(r.res_cfg) # 1
    \/ r.opts["angular"] = "True" /\ (r.powers = <<>> \/ r.missing)
    \/ r.mode = "new" /\ (r.fcfg = <<>> \/ r.fish = <<>> \/ r.cl = <<>>)
Combos(r) == {<<i, j, k, l>> : i \in 1..Len(r.fcfg), j \in 1..Len(r.fish), k \in 1..Len(r.cl), l \in (IF Powers(r) = <<>> THEN {0} ELSE 1..Len(Powers(r)))}
Power(r, x) == IF x[4] > 0 THEN Powers(r)[x[4]] ELSE r.ext_pmm
\* the labels of what the runs differ by, or might
Base(r, x) == r.fcfg[x[1]].label \o (IF Len(r.fish) > 1 THEN r.fish[x[2]].label ELSE <<>>) \o (IF Len(r.cl) > 1 THEN r.cl[x[3]].label ELSE <<>>)
              \o (IF Power(r, x).path = "none" THEN <<>> ELSE Power(r, x).label)
Given(r, input) == Upd(Upd(Chosen(r, Tasks \cup Resources), [s \in Switches |-> OnOff(SetOf(r.extra), s)]),
                       [input_data_dir |-> IF r.input = "none" THEN input ELSE r.input])
NewArgs(r, x) ==
    Upd(Upd(Given(r, "default"),
            [forecast_config |-> r.fcfg[x[1]].path, fisher_config |-> r.fish[x[2]].path, angular_config |-> r.cl[x[3]].path,
             powerspectrum_config |-> r.pmm_cfg[1], derivative_config |-> r.der_cfg[1], results_config |-> r.res_cfg[1],
             powerspectrum_dir |-> Power(r, x).path, angular_dir |-> r.ext_cl, derivative_dir |-> r.ext_der, fisher_dir |-> "none", rundir |-> "none"]),
        Pairs(r.ini))
\* ---- forecasts on existing run directories: their own configurations and data
OldArgs(r, d) ==
    Upd(Upd(Given(r, d.input),
            [forecast_config |-> d.forecast, fisher_config |-> d.Fisher, angular_config |-> d.Angular, powerspectrum_config |-> d.PowerSpectrum,
             derivative_config |-> d.Derivative, powerspectrum_dir |-> "none", angular_dir |-> "none", derivative_dir |-> "none", fisher_dir |-> "none", rundir |-> d.path]),
        Pairs(r.ini))
\* ---- run_seyfert: one forecast after the other, or one job each
Enough(r, bins) == IF bins > 24 /\ r.small THEN "10000" ELSE r.opts["memory"]
Batch(r, mem) == IF r.opts["execution"] = "batch" THEN [bsub_queue |-> r.opts["queue"], bsub_cores |-> r.opts["n_cores_per_job"], bsub_memory |-> mem]
                 ELSE [bsub_queue |-> "none", bsub_cores |-> "none", bsub_memory |-> "none"]
SeyfertArgs(r, i) == Upd(Upd(Pairs(r.args), [forecast_config |-> r.fcfg[i].path]), Batch(r, Enough(r, r.fcfg[i].nsp)))
ResultArgs(r, d) == Upd([rundir |-> d.path, outdir_name |-> r.outdir, overwrite |-> OnOff(SetOf(r.extra), "overwrite")], Batch(r, r.opts["memory"]))

\* the jobs: what reaches them, the labels they are named by, and how they are ordered
Jobs(r) ==
    CASE r.mode = "new" -> {[args |-> NewArgs(r, x), base |-> Base(r, x), rank |-> r.fcfg[x[1]].bins, key |-> x] : x \in Combos(r)}
      [] r.mode = "existing" -> {[args |-> OldArgs(r, r.rundirs[i]), base |-> <<>>, rank |-> i, key |-> <<i>>] : i \in 1..Len(r.rundirs)}
      [] r.mode = "seyfert" -> {[args |-> SeyfertArgs(r, i), base |-> <<>>, rank |-> r.fcfg[i].bins, key |-> <<i>>] : i \in 1..Len(r.fcfg)}
      [] OTHER -> {[args |-> ResultArgs(r, r.rundirs[i]), base |-> <<>>, rank |-> i, key |-> <<i>>] : i \in 1..Len(r.rundirs)}
\* forecasts whose names all tell their bins go by increasing number of them
Ranked(r) == r.mode \in {"existing", "results"} \/ \A i \in 1..Len(r.fcfg) : r.fcfg[i].bins > 0
Turn(r, todo) == IF Ranked(r) THEN {j \in todo : \A k \in todo : j.rank <= k.rank} ELSE todo
Launched(r) == IF r.mode \in {"new", "existing"} /\ Refused(r) THEN {}
               ELSE IF r.opts["execution"] = "no" /\ r.mode # "existing" THEN {}
               ELSE IF r.mode \in {"seyfert", "results"} /\ r.opts["execution"] = "batch" /\ "test" \in SetOf(r.extra) THEN {}
               ELSE Jobs(r)
\* variations of the angular coefficients are thrown away at the end of the run that computed them, unless they are to be kept
Kept(args) == args["execution"] = "no" \/ args["angular"] # "True" \/ args["keep_cl_variations"] = "True"
\* the name of a new run: its labels if they are free
Named(used, base, id) == id \notin used /\ IsPrefix(base, id) /\ (base \notin used => id = base)
=============================================================================
