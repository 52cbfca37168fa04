------------------------------ MODULE PrintedMC ------------------------------
(* A table is filled row by row and printed; what is printed can be read back. *)
EXTENDS Printed
CONSTANT Deep
P(a) == [k |-> "probe", a |-> a, b |-> ""]
X(a, b) == [k |-> "xc", a |-> a, b |-> b]
Cols == <<"FoM", "h", Percent>>
Tables == {<<[braced |-> TRUE, items |-> <<P("WL"), P("GCph"), X("WL", "GCph")>>]>>, <<[braced |-> FALSE, items |-> <<P("GCsp")>>]>>,
           <<[braced |-> TRUE, items |-> <<P("WL")>>], [braced |-> FALSE, items |-> <<[k |-> "pk", a |-> "GCsp", b |-> ""]>>]>>}
Foms == {1231, 99999} \cup (IF Deep THEN {7, 123452} ELSE {})
Errs == {-7, 12344} \cup (IF Deep THEN {0, 99996} ELSE {})
Gains == {-12341, 0, 3, 2507}
Rows == {[name |-> n, vals |-> <<f, e, g>>] : n \in Tables, f \in Foms, e \in Errs, g \in Gains}
VARIABLES rows, lines
vars == <<rows, lines>>
Init == rows = <<>> /\ lines = <<>>
Room(r) == Len(rows) = 0 \/ (Len(rows) = 1 /\ rows[1].name # r.name /\ (Deep => rows[1].vals[1] # r.vals[1]))
Add(r) == (IF Room(r) THEN TRUE ELSE FALSE) /\ rows' = Append(rows, r) /\ UNCHANGED lines
Show == lines' = MapSeq(LAMBDA r : Line(Cols, r), rows) /\ UNCHANGED rows
Next == Show \/ \E r \in Rows : Add(r)
Spec == Init /\ [][Next]_vars
Emit == (lines' # lines) => Out("T", [rows |-> rows, plain |-> [k \in DOMAIN rows |-> PlainName(rows[k].name)], lines |-> lines'])

\* reading numbers
Figures == "0123456789"
Figure(c) == (CHOOSE i \in 1..10 : SubSeq(Figures, i, i) = c) - 1
RECURSIVE Read(_, _)
Read(s, acc) == IF Len(s) = 0 THEN acc
                ELSE LET c == SubSeq(s, 1, 1) IN Read(SubSeq(s, 2, Len(s)), IF c \in {"-", "+", "."} THEN acc ELSE 10 * acc + Figure(c))
Number(s) == IF SubSeq(s, 1, 1) = "-" THEN -Read(s, 0) ELSE Read(s, 0)
Near(s, v) == Abs(10 * Number(s) - v) <= 5
Readable == \A k \in DOMAIN lines : /\ Near(lines[k].cells[1], rows[k].vals[1]) /\ Near(lines[k].cells[2], rows[k].vals[2])
                                    /\ \A j \in DOMAIN lines : (lines[j].name = lines[k].name) <=> (rows[j].name = rows[k].name)
Signs == \A k \in DOMAIN lines : LET v == rows[k].vals[3] s == lines[k].cells[3] IN
            ((v < 0) <=> (Len(s) > 9 /\ SubSeq(s, 1, 9) = "\\negative")) /\ ((v >= 5) <=> (Len(s) > 9 /\ SubSeq(s, 1, 9) = "\\positive"))
InStep == Len(lines) <= Len(rows)
Kept == [][\A k \in DOMAIN lines : k \in DOMAIN lines' /\ lines'[k] = lines[k]]_vars

Items == {P(a) : a \in Probes} \cup {X(a, b) : a, b \in Probes} \cup {[k |-> t, a |-> a, b |-> ""] : t \in {"pk", "cl"}, a \in Probes}
Singles == {<<[braced |-> w, items |-> <<x>>]>> : w \in BOOLEAN, x \in Items} \cup {<<[braced |-> TRUE, items |-> <<x, y>>]>> : x, y \in Items}
ASSUME \A al \in BOOLEAN : Cardinality({Name(n, al) : n \in Singles}) = Cardinality(Singles)
ASSUME Cardinality({Parameters[p] : p \in DOMAIN Parameters}) = Cardinality(DOMAIN Parameters)
ASSUME Cardinality({Title(c) : c \in DOMAIN Columns \cup {Delta, Percent}}) = Cardinality(DOMAIN Columns) + 2
ASSUME \A v \in -120..120 : \A p \in {2, 4} : Near(Fixed(v, p), v) /\ Near(Signed(v, p), v)
=============================================================================
