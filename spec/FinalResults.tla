---------------------------- MODULE FinalResults ----------------------------
(***************************************************************************)
(* The final results of a run: for every cosmology and every treatment of    *)
(* the nuisance parameters, all the input matrices and all the a-posteriori  *)
(* combinations whose operands are available.                               *)
(* A combination is a sequence <<name, sign, name, sign, name ...>>.         *)
(***************************************************************************)
EXTENDS FisherAlgebra

Cosmologies == {"w0_wa_CDM", "LCDM"}
Treatments == {"marg_before", "marg_after", "nuis_fixed"}
LCDM == {"Omm", "Omb", "h", "ns", "sigma8"}
Of(cosmology) == IF cosmology = "LCDM" THEN LCDM ELSE LCDM \cup {"w0", "wa"}

\* an input matrix as it enters the results
Prepare(F, cosmology, treatment) ==
    LET G == Fix(F, F.cosmo \ Of(cosmology)) IN
    CASE treatment = "marg_before" -> Marg(G, G.nuis)
      [] treatment = "nuis_fixed" -> Fix(G, G.nuis)
      [] treatment = "marg_after" -> G

Operands(c) == {c[i] : i \in {j \in DOMAIN c : j % 2 = 1}}
NameOf(c) == FoldLeft(LAMBDA acc, i : acc \o " " \o c[i], c[1], [i \in 1..Len(c) - 1 |-> i + 1])
Available(c, mats) == Operands(c) \subseteq DOMAIN mats
\* left to right, as the name reads
Evaluate(c, mats) ==
    FoldLeft(LAMBDA acc, i : IF c[2 * i] = "+" THEN Add(acc, mats[c[2 * i + 1]]) ELSE Sub(acc, mats[c[2 * i + 1]]),
             mats[c[1]], [i \in 1..((Len(c) - 1) \div 2) |-> i])
With(mats, name, F) == [x \in DOMAIN mats \cup {name} |-> IF x = name THEN F ELSE mats[x]]
AddCombination(mats, c) == IF Available(c, mats) THEN With(mats, NameOf(c), Evaluate(c, mats)) ELSE mats
Prepared(inputs, cosmology, treatment) == [x \in DOMAIN inputs |-> Prepare(inputs[x], cosmology, treatment)]
Results(inputs, combos, cosmology, treatment) ==
    FoldLeft(AddCombination, Prepared(inputs, cosmology, treatment), combos)
\* as read back for a run with these free cosmological parameters
ReadBack(F, free, cosmology) == Keep(F, (free \cap Of(cosmology)) \cup F.nuis)

VARIABLES inputs, todo, setting, res
rvars == <<inputs, todo, setting, res>>
Next1 == /\ todo # <<>>
         /\ res' = AddCombination(res, Head(todo)) /\ todo' = Tail(todo)
         /\ UNCHANGED <<inputs, setting>>
=============================================================================
