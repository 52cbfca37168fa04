------------------------------- MODULE WindowMC -------------------------------
(* All sequences of few edits of some fields of a window, from the one first    *)
(* shown.                                                                       *)
EXTENDS Window
CONSTANT Bound
VARIABLES win, hist
vars == <<win, hist>>
Counts == [f \in {"gcph_bias_piecewise.h5", "gcph_bias_constant.h5", "gcsp_bias_piecewise_4_bins.h5", "voids_bias_vdn.h5"} |->
           CASE f = "gcph_bias_piecewise.h5" -> 10 [] f = "gcph_bias_constant.h5" -> 10 [] f = "gcsp_bias_piecewise_4_bins.h5" -> 4 [] OTHER -> 0]
Row(f, b) == [fid |-> f, free |-> b, units |-> "None", factor |-> "1", method |-> "SteM"]
Usual == [x \in {"gamma"} |-> Row("11/20", "no")]
On == [file |-> TRUE, ell |-> TRUE, n |-> TRUE]
Ells(ext, f, lo, hi, log, n) == [ell_external_checkbox |-> ext, ell_external_filename |-> f, l_min |-> lo, l_max |-> hi, ell_log_selection |-> log, log_l_number |-> n]
Of(e, r) == [vals |-> Join(e, r), on |-> On]
W0 == [f_sky |-> "1/4", flat |-> "yes", disps |-> <<625, 10000>>,
       table |-> [x \in {"h", "w0"} |-> IF x = "h" THEN Row("67/100", "yes") ELSE Row("-1", "yes")],
       probes |-> [p \in {"WL", "GCph", "V"} |->
          CASE p = "WL" -> Of(Ells("yes", "a.txt", "10", "5000", "no", "100"), [presence_flag |-> "yes", density_file |-> "gcph_dndz_redbook.h5", include_IA |-> "yes",
                       nuis_param_aIA |-> "43/25", nuis_param_cIA |-> "67/5000", nuis_param_etaIA |-> "-41/100", nuis_param_betaIA |-> "217/100"])
            [] p = "GCph" -> Of(Ells("no", "", "10", "3000", "yes", "100"), [presence_flag |-> "yes", density_file |-> "gcph_dndz_redbook.h5",
                       bias_file |-> "gcph_bias_piecewise.h5", bias_derivative_method |-> "SteM", marginalize_bias_flag |-> "yes"])
            [] OTHER -> Of(Ells("no", "", "10", "1500", "no", "100"), [presence_flag |-> "no", density_file |-> "voids_dndz_flagship_old.h5",
                       bias_file |-> "voids_bias_vdn.h5", marginalize_bias_flag |-> "no", void_kcut_invMpc |-> "7/20", void_kcut_width_invMpc |-> "1/10"])]]
YN == {"yes", "no"}
Domain == [f \in {"ell_external_checkbox", "ell_external_filename", "ell_log_selection", "l_min", "log_l_number", "presence_flag", "include_IA", "bias_file",
                  "bias_derivative_method", "marginalize_bias_flag", "nuis_param_aIA"} |->
           CASE f = "ell_external_filename" -> {"", "b.txt"} [] f = "l_min" -> {"20"} [] f = "log_l_number" -> {"50"} [] f = "bias_file" -> {"gcph_bias_constant.h5"}
             [] f = "bias_derivative_method" -> {"Analytic"} [] f = "nuis_param_aIA" -> {"1", "bad"} [] OTHER -> YN]
Init == win = W0 /\ hist = <<>>
Field == \E p \in DOMAIN win.probes : \E f \in DOMAIN Domain : \E x \in Domain[f] :
    /\ f \in DOMAIN win.probes[p].vals /\ (f = "bias_file" => p = "GCph") /\ Editable(win.probes[p], f) /\ x # win.probes[p].vals[f]
    /\ win' = [win EXCEPT !.probes[p] = SetField(win.probes[p], f, x)]
    /\ hist' = Append(hist, [op |-> "field", probe |-> p, field |-> f, to |-> x])
Flat == \E x \in YN : x # win.flat /\ win' = [win EXCEPT !.flat = x] /\ hist' = Append(hist, [op |-> "flat", to |-> x])
Cell == \E x \in DOMAIN win.table : \E c \in {<<"fid", "1/2">>, <<"free", "no">>, <<"factor", "3">>, <<"free", "bad">>} :
    /\ win.table[x][c[1]] # c[2] /\ win' = [win EXCEPT !.table[x][c[1]] = c[2]]
    /\ hist' = Append(hist, [op |-> "cell", par |-> x, column |-> c[1], to |-> c[2]])
Disp == win.disps[1] = 625 /\ win' = [win EXCEPT !.disps[1] = 20000] /\ hist' = Append(hist, [op |-> "disp", row |-> 1, to |-> 20000])
Next == Len(hist) < Bound /\ (Field \/ Flat \/ Cell \/ Disp)
Spec == Init /\ [][Next]_vars
View == win
C == Config(win, Counts, Usual)
Emit == Out("T", [hist |-> hist', bad |-> Bad(win'), want |-> Config(win', Counts, Usual)])

\* fields which cannot be edited have no say
Blank(P) == LET off == {f \in DOMAIN P.vals : ~Editable(P, f)} IN [P EXCEPT !.vals = [f \in DOMAIN P.vals |-> IF f \in off /\ f # "ell_log_selection" THEN "20" ELSE P.vals[f]]]
Blanked(P) == IF P.on.file THEN P ELSE [P EXCEPT !.vals.ell_external_filename = "zzz"]
NoSay == \A p \in DOMAIN win.probes : C = Config([win EXCEPT !.probes[p] = Blanked(win.probes[p])], Counts, Usual)
\* what can be edited and is used is told apart
Used(p, P) == LET m == Multipoles(P) IN
    [f \in {f \in DOMAIN P.vals \ {"ell_external_checkbox", "ell_external_filename", "l_min", "l_max", "ell_log_selection", "log_l_number", "marginalize_bias_flag",
                                   "bias_derivative_method"} : TRUE} |-> P.vals[f]]
Told == \A p \in Present(win) : LET c == C.probes[LongName(p)] IN
    /\ c.density = win.probes[p].vals.density_file
    /\ (c.multipoles.kind = "file") = (c.multipoles.file # "")
    /\ (c.multipoles.kind = "log") = (c.multipoles.n # "")
    /\ c.multipoles.kind = "file" => win.probes[p].on.file
OnlyPresent == DOMAIN C.probes = {LongName(p) : p \in Present(win)} /\ (SetOf(Nuisances) \subseteq DOMAIN C.pars <=> "WL" \in Present(win))
Complete == DOMAIN win.table \cup DOMAIN Usual \subseteq DOMAIN C.pars
\* an edit changes its own part of the configuration only
Own == [][LET a == hist'[Len(hist')]
              D == Config(win', Counts, Usual) IN
          /\ a.op # "flat" => D.flat = C.flat
          /\ a.op # "disp" => D.steps = C.steps
          /\ a.op # "cell" => \A x \in DOMAIN win.table : D.pars[x] = C.pars[x]
          /\ a.op = "cell" => \A x \in DOMAIN C.pars \ {a.par} : D.pars[x] = C.pars[x]
          /\ \A l \in (DOMAIN C.probes) \cap (DOMAIN D.probes) : D.probes[l] # C.probes[l] => a.op = "field" /\ LongName(a.probe) = l]_vars
===============================================================================
