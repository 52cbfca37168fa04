---------------------------- MODULE OrchestrateMC ----------------------------
(* The nested loops of the orchestrator, one launch per step, over small sets of configurations with labels that run into each other. *)
EXTENDS Orchestrate
CONSTANTS MaxF, MaxG, MaxP
F(p, l, b) == [path |-> p, label |-> l, bins |-> b, nsp |-> 4]
None == F("none", <<>>, 0)
FCFG == <<F("f1", <<"a">>, 4), F("f2", <<"a", "b">>, 12), F("f3", <<"a">>, 4), F("f4", <<"b">>, 0)>>
FISH == <<F("g1", <<"c">>, 0), F("g2", <<"b", "c">>, 0)>>
CL == <<F("c1", <<"d">>, 0), F("c2", <<"d", "2">>, 0)>>
PMM == <<F("p1", <<"p">>, 0), F("p2", <<"p">>, 0), F("p3", <<"d", "p">>, 0)>>
\* (files of a directory come in any order)
Subs(S, n) == {s \in UNION {[1..m -> SetOf(S)] : m \in 0..n} : NoDup(s)}
Wide(f, g, c) == Len(f) <= 1 /\ Len(g) <= 1 /\ Len(c) <= 1
\* one request is built step by step (few switches at a time)
Requests(f, g, c, p) ==
  {[mode |-> "new", fcfg |-> f, fish |-> g, cl |-> c, powers |-> p, missing |-> m, pmm_cfg |-> s[1], der_cfg |-> s[2], res_cfg |-> <<"r1">>, ext_pmm |-> e[1], ext_cl |-> e[2], ext_der |-> "none",
    extra |-> x, ini |-> i, input |-> d,
    opts |-> [execution |-> o[1], angular |-> o[2], fisher |-> o[3], derivative |-> "False", powerspectrum |-> o[4], queue |-> "long", memory |-> "2048", n_cores_per_job |-> "1"]] :
      m \in {FALSE} \cup (IF Len(p) = 1 /\ Wide(f, g, c) THEN {TRUE} ELSE {}),
      s \in {<<<<"m1">>, <<"d1">>>>} \cup (IF Wide(f, g, c) THEN {<<<<"m1", "m2">>, <<"d1">>>>, <<<<"m1">>, <<>>>>} ELSE {}),
      e \in {<<None, "none">>} \cup (IF Len(f) + Len(p) <= 2 THEN {<<F("x", <<"p">>, 0), "none">>} ELSE {}) \cup (IF p = <<>> THEN {<<F("x", <<"p">>, 0), "y">>} ELSE {}),
      x \in {<<>>} \cup (IF Len(f) = 1 THEN {<<"verbose">>} ELSE {}), i \in {<<>>} \cup (IF Wide(f, g, c) THEN {<<<<"memory", "4096">>, <<"fisher", "False">>>>} ELSE {}),
      d \in {"none"} \cup (IF Wide(f, g, c) THEN {"data"} ELSE {}),
      o \in {<<"interactive", "True", "True", "False">>} \cup (IF p = <<>> THEN {<<"batch", "False", "True", "False">>} ELSE {}) \cup (IF Len(f) <= 1 THEN {<<"no", "True", "False", "False">>} ELSE {}) \cup
            (IF Wide(f, g, c) THEN {<<"none", "False", "True", "False">>, <<"batch", "False", "False", "False">>, <<"batch", "False", "False", "True">>} ELSE {})}
VARIABLES r, queue, used, launches, st
mvars == <<r, queue, used, launches, st>>
\* the loops: forecasts, then Fisher, angular configurations, power spectra
Before(q, x, y) == LET p(z) == IF Ranked(q) THEN q.fcfg[z[1]].bins ELSE z[1] IN
    \/ p(x) < p(y)
    \/ p(x) = p(y) /\ \E n \in 1..4 : x[n] < y[n] /\ \A m \in 1..(n - 1) : x[m] = y[m]
RECURSIVE Loop(_, _)
Loop(q, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S \ {y} : Before(q, y, z) IN <<x>> \o Loop(q, S \ {x})
Init == /\ \E f \in Subs(FCFG, MaxF), g \in Subs(FISH, MaxG), c \in Subs(CL, MaxG), p \in Subs(PMM, MaxP) :
             /\ (Len(f) > 1 => Len(p) < 3)
             /\ r \in Requests(f, g, c, p)
        /\ queue = (IF Launched(r) = {} THEN <<>> ELSE Loop(r, Combos(r)))
        /\ used = {} /\ launches = <<>> /\ st = "go"
Suffix(n) == <<ToString(n)>>
Free(base) == IF base \notin used THEN base
              ELSE base \o Suffix(CHOOSE n \in 2..40 : base \o Suffix(n) \notin used /\ \A m \in 2..(n - 1) : base \o Suffix(m) \in used)
Launch == /\ queue # <<>>
          /\ LET x == Head(queue) id == Free(Base(r, x)) IN
             /\ launches' = Append(launches, [args |-> NewArgs(r, x), id |-> id])
             /\ used' = used \cup {id}
          /\ queue' = Tail(queue) /\ UNCHANGED <<r, st>>
Finish == queue = <<>> /\ st = "go" /\ st' = "done" /\ UNCHANGED <<r, queue, used, launches>>
Next == Launch \/ Finish
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

Args == {launches[i].args : i \in 1..Len(launches)}
\* every combination once, each as asked for, under a name of its own
Once == /\ NoDup([i \in 1..Len(launches) |-> launches[i].args])
        /\ NoDup([i \in 1..Len(launches) |-> launches[i].id])
        /\ Args \subseteq {j.args : j \in Launched(r)}
All == st = "done" => Args = {j.args : j \in Launched(r)} /\ Len(launches) = Cardinality(Combos(r)) * (IF Launched(r) = {} THEN 0 ELSE 1)
Faithful == \A i \in 1..Len(launches) :
    LET a == launches[i].args IN
    /\ a["forecast_config"] \in {f.path : f \in SetOf(r.fcfg)} /\ a["fisher_config"] \in {f.path : f \in SetOf(r.fish)}
    /\ r.ini = <<>> => a["memory"] = r.opts["memory"] /\ \A t \in Tasks : a[t] = r.opts[t]
    /\ (r.opts["angular"] = "True" => a["powerspectrum_dir"] \in {p.path : p \in SetOf(r.powers)})
    /\ a["execution"] = r.opts["execution"] /\ a["execution"] # "no"
Names == \A i \in 1..Len(launches) : \E j \in Launched(r) : j.args = launches[i].args /\
             Named({launches[k].id : k \in 1..(i - 1)}, j.base, launches[i].id)
Order == Ranked(r) => \A i, k \in 1..Len(launches) : i < k =>
             LET b(n) == (CHOOSE f \in SetOf(r.fcfg) : f.path = launches[n].args["forecast_config"]).bins IN b(i) <= b(k)
Ends == <>(st = "done")
Emit == (st' = "done") => Out("T", [req |-> r, refused |-> Refused(r), n |-> Len(launches)])
=============================================================================
