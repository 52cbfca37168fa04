---------------------------- MODULE ForecastsMC ----------------------------
(* Which fields of a forecast its comparison looks at: pairs that differ by   *)
(* at most two edits from a common start.                                     *)
EXTENDS Editor
Probes == {"WL", "GCph", "GCsp"}
GlobalFields == [f_sky |-> {"a", "b"}, flat |-> {"true", "false"}, noise |-> {"none", "a", "b"}, reduced |-> {"true", "false"}, steps |-> {"a", "b"},
                 par |-> {"a", "value", "free", "method", "factor", "missing"}]
ProbeFields(p) == IF p = "WL" THEN [present |-> {"true", "false"}, grid |-> {"a", "b", "c"}, density |-> {"a", "b"}, settings |-> {"a", "b"},
                                    extra |-> {"a", "value", "free", "method", "factor", "missing"}]
                  ELSE [present |-> {"true", "false"}, grid |-> {"a", "b", "c"}, density |-> {"a", "b"}, settings |-> {"a", "b"},
                        extra |-> {"none", "one"}, bias |-> {"a", "b"}, method |-> {"a", "b"}, marg |-> {"true", "false"}]
First(s) == CASE "a" \in s -> "a" [] "true" \in s -> "true" [] OTHER -> "none"
Base == [global |-> [f \in DOMAIN GlobalFields |-> First(GlobalFields[f])],
         probes |-> [p \in Probes |-> [f \in DOMAIN ProbeFields(p) |-> First(ProbeFields(p)[f])]]]
VARIABLES l, r, n, same
fv == <<l, r, n, same>>
Edit(c) == {[c EXCEPT !.global[f] = v] : <<f, v>> \in UNION {{f} \X GlobalFields[f] : f \in DOMAIN GlobalFields}}
           \cup {[c EXCEPT !.probes[x[1]][x[2]] = x[3]] : x \in UNION {{<<p, f, v>> : v \in ProbeFields(p)[f]} : <<p, f>> \in
                  UNION {{p} \X DOMAIN ProbeFields(p) : p \in Probes}}}
Init == l = Base /\ r = Base /\ n = 0 /\ same = TRUE /\ dicts = NONE /\ eds = NONE /\ files = NONE /\ op = NONE
Next == /\ n < 2 /\ n' = n + 1
        /\ \/ l' \in Edit(l) /\ r' = r
           \/ r' \in Edit(r) /\ l' = l
        /\ same' = SameForecast(l', r') /\ UNCHANGED evars
Spec == Init /\ [][Next]_<<fv, evars>>
Reflexive == SameForecast(l, l) /\ SameForecast(r, r)
Symmetric == SameForecast(l, r) <=> SameForecast(r, l)
\* one edit is seen exactly when it is not inside an absent probe
OneEdit == (l = Base /\ n = 1) => (same <=> l = r)
Hidden == \A p \in Probes : l.probes[p].present = "false" => SameForecast(l, [l EXCEPT !.probes[p].grid = "b"])
Emit == Out("T", [l |-> l', r |-> r', same |-> IF same' THEN "yes" ELSE "no"])
=============================================================================
