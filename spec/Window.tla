-------------------------------- MODULE Window --------------------------------
(* The window for making a configuration: what its fields show, which of them   *)
(* can be edited, and the configuration a forecast reads from what was saved.   *)
(* Numbers are texts in lowest terms, ticks "yes" or "no"; a text that is no    *)
(* number (or no truth value) is "bad".                                         *)
EXTENDS Kit

LongName(p) == CASE p = "WL" -> "Lensing" [] p = "GCph" -> "PhotometricGalaxy" [] p = "GCsp" -> "SpectroscopicGalaxy" [] p = "V" -> "Void"
Nuisances == <<"aIA", "cIA", "etaIA", "betaIA">>
Yes(x) == x = "yes"
Tick(b) == IF b THEN "yes" ELSE "no"

\* win: [f_sky, flat, table: parameter -> [fid, free, units, factor, method], disps: sequence,
\*       probes: probe -> [vals: field -> text, on: [file, ell, n]]]
\* on: whether the name of a file, the numbers, and the number of logarithmic bins can be edited
Editable(P, f) == CASE f = "ell_external_filename" -> P.on.file
                    [] f \in {"l_min", "l_max", "ell_log_selection"} -> P.on.ell
                    [] f = "log_l_number" -> P.on.ell /\ P.on.n
                    [] OTHER -> TRUE
SetField(P, f, x) ==
    LET Q == [P EXCEPT !.vals[f] = x] IN
    IF x = P.vals[f] THEN P
    ELSE IF f = "ell_external_checkbox" THEN [Q EXCEPT !.on.file = Yes(x), !.on.ell = ~Yes(x)]
    ELSE IF f = "ell_log_selection" THEN [Q EXCEPT !.on.n = Yes(x)] ELSE Q

Multipoles(P) ==
    IF P.on.file /\ P.vals.ell_external_filename # "" THEN [kind |-> "file", file |-> P.vals.ell_external_filename, lo |-> "", hi |-> "", n |-> ""]
    ELSE [kind |-> IF Yes(P.vals.ell_log_selection) THEN "log" ELSE "linear", file |-> "", lo |-> P.vals.l_min, hi |-> P.vals.l_max,
          n |-> IF Yes(P.vals.ell_log_selection) THEN P.vals.log_l_number ELSE ""]
Specific(p, v) == CASE p = "WL" -> [include_IA |-> v.include_IA]
                    [] p = "GCsp" -> [compute_gcsp_cl_offdiag |-> v.compute_gcsp_cl_offdiag]
                    [] p = "V" -> [void_kcut_invMpc |-> v.void_kcut_invMpc, void_kcut_width_invMpc |-> v.void_kcut_width_invMpc]
                    [] OTHER -> [x \in {} |-> ""]
\* biases: how many parameters the files of biases have
BiasOf(p, v, counts) ==
    IF p = "WL" THEN [file |-> "", n |-> 0, free |-> <<>>, method |-> <<>>]
    ELSE LET k == counts[v.bias_file] IN
         [file |-> v.bias_file, n |-> k, free |-> IF k = 0 THEN <<>> ELSE <<v.marginalize_bias_flag>>,
          method |-> IF k = 0 THEN <<>> ELSE <<IF "bias_derivative_method" \in DOMAIN v THEN v.bias_derivative_method ELSE "SteM">>]
ProbeConfig(p, P, counts) == [multipoles |-> Multipoles(P), density |-> P.vals.density_file, bias |-> BiasOf(p, P.vals, counts), specific |-> Specific(p, P.vals)]
Present(win) == {p \in DOMAIN win.probes : Yes(win.probes[p].vals.presence_flag)}
\* the intrinsic alignments are free if included, their normalisation never
Alignments(win) ==
    IF "WL" \notin Present(win) THEN [x \in {} |-> ""]
    ELSE LET v == win.probes["WL"].vals IN
         [x \in SetOf(Nuisances) |-> [fid |-> v["nuis_param_" \o x], free |-> Tick(x # "cIA" /\ Yes(v.include_IA)), units |-> "None", factor |-> "1",
                                      method |-> "SteM", probe |-> "Lensing"]]
\* parameters which the window does not show have their usual values
Cosmological(win, usual) == [x \in DOMAIN win.table \cup DOMAIN usual |->
    LET r == IF x \in DOMAIN win.table THEN win.table[x] ELSE usual[x] IN
    [fid |-> r.fid, free |-> r.free, units |-> r.units, factor |-> r.factor, method |-> r.method, probe |-> ""]]
Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Config(win, counts, usual) ==
    [f_sky |-> win.f_sky, flat |-> win.flat, steps |-> SortSeq(win.disps, LAMBDA a, b : a < b),
     pars |-> Join(Cosmological(win, usual), Alignments(win)),
     probes |-> [l \in {LongName(p) : p \in Present(win)} |-> LET p == CHOOSE p \in Present(win) : LongName(p) = l IN ProbeConfig(p, win.probes[p], counts)]]
Bad(win) == \/ win.f_sky = "bad"
            \/ \E x \in DOMAIN win.table : "bad" \in {win.table[x].fid, win.table[x].free, win.table[x].factor}
            \/ \E p \in DOMAIN win.probes : \E f \in DOMAIN win.probes[p].vals : win.probes[p].vals[f] = "bad"
\* the name of the file: as given, with the time if wanted, and always of this kind
Named(name, kind, dated) == IF dated THEN [stem |-> name, dated |-> TRUE] ELSE [stem |-> IF kind THEN name ELSE name \o ".json", dated |-> FALSE]
===============================================================================
