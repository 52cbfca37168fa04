--------------------------- MODULE FinalResultsMC ---------------------------
EXTENDS FinalResults
CONSTANTS MaxCombos
Sym(ps, f(_, _)) == [pq \in ps \X ps |-> R(f(pq[1], pq[2]))]
A == Mk("[A]", {"h", "w0"}, {"b1"}, Sym({"h", "w0", "b1"}, LAMBDA p, q :
        IF p = q THEN (CASE p = "h" -> 8 [] p = "w0" -> 6 [] OTHER -> 4) ELSE IF {p, q} = {"h", "b1"} THEN -1 ELSE 1))
B == Mk("[B]", {"h", "w0"}, {"b2"}, Sym({"h", "w0", "b2"}, LAMBDA p, q : IF p = q THEN 2 ELSE IF {p, q} = {"h", "w0"} THEN 0 ELSE 1))
\* a matrix without nuisance parameters, and with one more cosmological parameter
C == Mk("[C(Pk)]", {"h", "w0", "gamma"}, {}, Sym({"h", "w0", "gamma"}, LAMBDA p, q :
        IF p = q THEN 3 ELSE IF {p, q} = {"gamma", "h"} THEN -2 ELSE 1))
All == [x \in {"[A]", "[B]", "[C(Pk)]"} |-> CASE x = "[A]" -> A [] x = "[B]" -> B [] x = "[C(Pk)]" -> C]
Combos == {<<"[A]", "+", "[B]">>, <<"[B]", "+", "[A]">>, <<"[A]", "-", "[B]">>, <<"[A]", "-", "[B]", "+", "[C(Pk)]">>,
           <<"[A]", "+", "[C(Pk)]", "-", "[B]">>, <<"[C(Pk)]">>, <<"[A]", "+", "[D]">>}
Lists == UNION {[1..n -> Combos] : n \in 0..MaxCombos}
VARIABLES asked
hidden == <<heap, op>>
MCInit ==
    /\ heap = <<>> /\ op = <<>>
    /\ \E xs \in SUBSET DOMAIN All : xs # {} /\ inputs = [x \in xs |-> All[x]]
    /\ asked \in {l \in Lists : NoDup(l)} /\ todo = asked
    /\ setting \in Cosmologies \X Treatments
    /\ res = Prepared(inputs, setting[1], setting[2])
MCNext == Next1 /\ UNCHANGED <<asked, heap, op>>
Spec == MCInit /\ [][MCNext]_<<rvars, asked>> /\ WF_<<rvars, asked>>(MCNext)

Done == todo = <<>>
Names == {NameOf(asked[i]) : i \in {j \in DOMAIN asked : Operands(asked[j]) \subseteq DOMAIN inputs}}
\* every input, every combination that can be evaluated, nothing else
ExactlyThese == Done => DOMAIN res = DOMAIN inputs \cup Names
InputsKept == [][inputs' = inputs /\ \A x \in DOMAIN res : res'[x] = res[x]]_<<rvars, asked>>
OnlyAllowed == \A x \in DOMAIN res : /\ res[x].cosmo \subseteq Of(setting[1])
                                     /\ (setting[2] # "marg_after" => res[x].nuis = {})
                                     /\ Symmetric(res[x])
Closed == Done => res = Results(inputs, asked, setting[1], setting[2])
\* the order of the list does not matter, nor does the order of a sum
AnyOrder == Done => \A i \in DOMAIN asked : LET l == <<asked[i]>> \o SelectSeq(asked, LAMBDA c : c # asked[i]) IN
                Results(inputs, l, setting[1], setting[2]) = res
SumsCommute == \A x, y \in {"[A]", "[B]"} : x \in DOMAIN inputs /\ y \in DOMAIN inputs =>
    Add(res[x], res[y]).m = Add(res[y], res[x]).m
\* marginalising before or after a sum differ only through shared nuisance parameters
BeforeIsAfter == ({"[A]", "[B]"} \subseteq DOMAIN inputs /\ setting[2] = "marg_after") =>
    LET s == Evaluate(<<"[A]", "+", "[B]">>, res) IN
    Marg(s, s.nuis).m = Results(inputs, <<<<"[A]", "+", "[B]">>>>, setting[1], "marg_before")["[A] + [B]"].m
Terminates == <>Done

Show(F) == [name |-> F.name, cosmo |-> F.cosmo, nuis |-> F.nuis,
            m |-> {<<pq[1], pq[2], F.m[pq].n, F.m[pq].d>> : pq \in DOMAIN F.m}]
Emit == (todo' = <<>>) => Out("T", [inputs |-> [x \in DOMAIN inputs |-> Show(inputs[x])], asked |-> [i \in DOMAIN asked |-> NameOf(asked[i])],
                                    setting |-> setting, res |-> [x \in DOMAIN res' |-> Show(res'[x])]])
=============================================================================
