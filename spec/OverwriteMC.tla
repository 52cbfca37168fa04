----------------------------- MODULE OverwriteMC -----------------------------
(* A run directory: the matrices of the Fisher stage (base), the final results computed from them, and a directory of saved analyses. *)
EXTENDS Overwrite
CONSTANTS MaxOps, MaxVer
Names == {"x", "y"}
VARIABLES base, res, out, tab, ver, op, n
mvars == <<base, res, out, tab, ver, op, n>>
Init == base = Empty /\ res = Empty /\ out = Empty /\ tab = Empty /\ ver = 1 /\ op = [s |-> "init", a |-> <<>>, out |-> "ok"] /\ n = 0
Act(s, a, o) == op' = [s |-> s, a |-> a, out |-> o] /\ n' = n + 1
Vers(S) == [x \in S |-> ver]
\* the results of a set of matrices
Results(b) == [x \in DOMAIN b \cup {"tables"} |-> IF x = "tables" THEN [y \in Names |-> IF y \in DOMAIN b THEN b[y] ELSE 0] ELSE [y \in {x} |-> b[x]]]
St(r, refused) == IF refused THEN "refused" ELSE "ok"

Inputs == ver < MaxVer /\ ver' = ver + 1 /\ UNCHANGED <<base, res, out, tab>> /\ Act("inputs", <<>>, "ok")
One(x, p) == /\ out' = Written(out, Vers({x}), p) /\ UNCHANGED <<base, res, tab, ver>>
             /\ Act("matrix", <<x, p>>, St(0, Refused(out, Vers({x}), p)))
Save(S, p) == /\ out' = Written(out, Vers(S), p) /\ UNCHANGED <<base, res, tab, ver>>
              /\ Act("analysis", <<S, p>>, St(0, Refused(out, Vers(S), p)))
Table(p) == /\ tab' = Written(tab, Vers({"x"}), p) /\ UNCHANGED <<base, res, out, ver>> /\ Act("table", <<p>>, "ok")
Stage(ow) == /\ base' = Written(base, Vers(Names), IF ow THEN "replace" ELSE "keep") /\ UNCHANGED <<res, out, tab, ver>> /\ Act("stage", <<ow>>, "ok")
Lose(x) == /\ x \in DOMAIN base /\ base' = [y \in DOMAIN base \ {x} |-> base[y]] /\ UNCHANGED <<res, out, tab, ver>> /\ Act("lose", <<x>>, "ok")
Final(ow) == /\ DOMAIN base # {}
             /\ res' = Written(res, Results(base), IF ow THEN "replace" ELSE "whole") /\ UNCHANGED <<base, out, tab, ver>>
             /\ Act("final", <<ow>>, St(0, ~ow /\ Refused(res, Results(base), "whole")))
\* the last step of a run; the run itself goes on when the results are there already
Launch(ow) == /\ DOMAIN base # {}
              /\ res' = Written(res, Results(base), IF ow THEN "replace" ELSE "whole") /\ UNCHANGED <<base, out, tab, ver>> /\ Act("launch", <<ow>>, "ok")
Next == /\ n < MaxOps
        /\ \/ Inputs
           \/ \E x \in Names, p \in {"refuse", "keep", "over"} : One(x, p)
           \/ \E S \in SUBSET Names \ {{}}, p \in {"refuse", "over"} : Save(S, p)
           \/ \E p \in {"keep", "over"} : Table(p)
           \/ \E b \in BOOLEAN : Stage(b) \/ Final(b) \/ Launch(b)
           \/ \E x \in Names : Lose(x)
Spec == Init /\ [][Next]_mvars
View == <<base, res, out, tab, ver, n>>

Asked == \/ op'.s \in {"matrix", "analysis", "table"} /\ op'.a[Len(op'.a)] = "over"
         \/ op'.s \in {"stage", "final", "launch"} /\ op'.a[1]
Same(d, e) == \A x \in DOMAIN d : x \in DOMAIN e /\ e[x] = d[x]
\* nothing that exists changes or goes unless this was asked for
Kept == [][ Asked \/ (op'.s = "lose" /\ Same(res, res') /\ Same(out, out') /\ Same(tab, tab'))
                  \/ (Same(base, base') /\ Same(res, res') /\ Same(out, out') /\ Same(tab, tab')) ]_mvars
\* what is asked to be replaced is new afterwards, with nothing older among it
New == [][ /\ (op'.s = "stage" /\ op'.a[1]) => base' = Vers(Names)
           /\ (op'.s \in {"final", "launch"} /\ op'.a[1]) => res' = Results(base)
           /\ (op'.s = "matrix" /\ op'.a[2] = "over") => out'[op'.a[1]] = ver ]_mvars
\* what is refused changes nothing
Nothing == [][ op'.out = "refused" => UNCHANGED <<base, res, out, tab, ver>> ]_mvars
\* results always belong to one set of matrices
OneSet == res = Empty \/ \E b \in [Names -> 0..MaxVer] : res = Results([x \in {y \in Names : b[y] > 0} |-> b[x]])
Fn(d) == {<<x, d[x]>> : x \in DOMAIN d}
State(b, r, o, t, v) == [base |-> Fn(b), res |-> (IF r = Empty THEN {} ELSE {<<y, r["tables"][y]>> : y \in {z \in Names : r["tables"][z] > 0}}), out |-> Fn(o), tab |-> Fn(t), ver |-> v]
Emit == Out("T", [pre |-> State(base, res, out, tab, ver), op |-> op', post |-> State(base', res', out', tab', ver'), n |-> n])
=============================================================================
