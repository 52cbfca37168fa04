------------------------------ MODULE Printed ------------------------------
(* What is printed of tables of errors: symbols of matrices, parameters and   *)
(* columns, numbers with a fixed number of decimals, signs of differences.    *)
(* A number is given in units of a tenth of its last printed decimal.         *)
EXTENDS Kit
Join(s, by) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o by \o b, s[1], Tail(s))
\* names of matrices: groups, written in brackets or not, of items: [k, a, b]
Probes == {"WL", "GCph", "GCsp"}
Symbol(p, alias) == IF alias THEN "\\" \o p
                    ELSE CASE p = "WL" -> "\\mathrm{WL}" [] p = "GCph" -> "\\mathrm{GC_{ph}}" [] OTHER -> "\\mathrm{GC_{sp}}"
PlainItem(x) == CASE x.k = "xc" -> "XC(" \o x.a \o "," \o x.b \o ")" [] x.k = "pk" -> x.a \o "(Pk)" [] x.k = "cl" -> x.a \o "(Cl)" [] OTHER -> x.a
Item(x, al) == CASE x.k = "xc" -> (IF al THEN "\\xc{" \o Symbol(x.a, al) \o "}{" \o Symbol(x.b, al) \o "}" ELSE "\\mathrm{XC}(" \o Symbol(x.a, al) \o "," \o Symbol(x.b, al) \o ")")
                 [] x.k = "pk" -> Symbol(x.a, al) \o "(P_k)" [] x.k = "cl" -> Symbol(x.a, al) \o "(C_{\\ell})" [] OTHER -> Symbol(x.a, al)
Wrap(g, s) == IF g.braced THEN "[" \o s \o "]" ELSE s
PlainName(n) == Join(MapSeq(LAMBDA g : Wrap(g, Join(MapSeq(PlainItem, g.items), "+")), n), " + ")
Name(n, al) == Join(MapSeq(LAMBDA g : Wrap(g, Join(MapSeq(LAMBDA x : Item(x, al), g.items), "+")), n), " + ")

Columns == [FoM |-> "\\FoM", Omm |-> "\\Omm", Omb |-> "\\Omb", h |-> "\\h", ns |-> "\\ns", sigma8 |-> "\\sige", w0 |-> "\\wz", wa |-> "\\wa",
            mnu |-> "mnu", gamma |-> "gamma"]
Delta == "Delta FoM"
Percent == "Delta FoM (%)"
Title(c) == CASE c = Delta -> "Delta \\FoM" [] c = Percent -> "Delta \\FoM (\\%)" [] OTHER -> Columns[c]
Parameters == [w0 |-> "w_0", wa |-> "w_a", mnu |-> "M_\\nu[\\mathrm{eV}]", Omm |-> "\\Omega_m", OmDE |-> "\\Omega_{DE}", Omb |-> "\\Omega_b", sigma8 |-> "\\sigma_8",
               ns |-> "n_s", h |-> "h", gamma |-> "\\gamma", aIA |-> "\\mathcal{A}_{\\rm IA}", etaIA |-> "\\eta_{\\rm IA}", betaIA |-> "\\beta_{\\rm IA}"]
Bias(kind, i) == "b^{\\mathrm{" \o kind \o "}}_{" \o ToString(i) \o "}"

\* numbers
Power(p) == CASE p = 2 -> 100 [] OTHER -> 10000
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Padded(s, p) == Zeros(p - Len(s)) \o s
Rounded(v) == (Abs(v) + 5) \div 10
Digits(v, p) == ToString(Rounded(v) \div Power(p)) \o "." \o Padded(ToString(Rounded(v) % Power(p)), p)
Fixed(v, p) == (IF v < 0 THEN "-" ELSE "") \o Digits(v, p)
Signed(v, p) == (IF v < 0 THEN "-" ELSE "+") \o Digits(v, p)
Mark(v) == IF v >= 0 /\ Rounded(v) = 0 THEN "\\text{--}"
           ELSE IF v < 0 THEN "\\negative{" \o Signed(v, 2) \o "\\%}" ELSE "\\positive{" \o Signed(v, 2) \o "\\%}"
Cell(c, v) == CASE c = "FoM" -> Fixed(v, 2) [] c = Delta -> Signed(v, 2) [] c = Percent -> Mark(v) [] OTHER -> Fixed(v, 4)
Line(cols, row) == [name |-> Name(row.name, TRUE), cells |-> [k \in DOMAIN cols |-> Cell(cols[k], row.vals[k])]]
\* one row of a table of errors with the figure of merit and how it differs from a reference; ref and fom are in hundredths
Gain(fom, ref) == 10 * (10000 \div ref) * (fom - ref)       \* per cent, in thousandths; references divide 100
RowCells(r) == (IF r.bins = "" THEN <<>> ELSE <<r.bins>>)
               \o <<Name(r.name, FALSE), Fixed(10 * r.fom, 2), IF r.ref = 0 THEN "--" ELSE Signed(Gain(r.fom, r.ref), 2) \o "\\%">>
               \o MapSeq(LAMBDA v : Fixed(v, 4), r.errs)
=============================================================================
