------------------------------ MODULE CompareMC ------------------------------
EXTENDS Compare
CONSTANT Deep
Vals == IF Deep THEN {0, 1, 3} ELSE {0, 1, 3}
Two == {<<x, y>> \in Vals \X Vals : TRUE}
Spectra == {<<<<<<p, q>>, <<q, r>>>>>> : p \in Vals, q \in Vals, r \in {1, 3}}
            \cup {<<<<<<p, q>>, <<q, 1>>>>, <<<<r, 0>>, <<0, p>>>>>> : p \in {1, 3}, q \in Vals, r \in Vals}
            \cup {<<<<<<p, q, 1>>>>, <<<<3, 1, r>>>>>> : p \in {1, 3}, q \in {1, 3}, r \in Vals}
Alike == {ab \in Spectra \X Spectra : Len(ab[1]) = Len(ab[2]) /\ Len(ab[1][1]) = Len(ab[2][1])}
Cuts == {Norm(1, 3), Norm(3, 5), R(2)} \cup (IF Deep THEN {Norm(1, 7)} ELSE {})
VARIABLES a, b, m, cuts, file
vars == <<a, b, m, cuts, file>>
Init == \E ab \in Alike : a = ab[1] /\ b = ab[2] /\ m = Metrics(a, b) /\ cuts = {} /\ file = <<>>
CutOff(c) == c \notin cuts /\ m' = Cut(m, c) /\ cuts' = cuts \cup {c} /\ UNCHANGED <<a, b, file>>
Write == file # <<m>> /\ file' = <<m>> /\ UNCHANGED <<a, b, m, cuts>>
Next == Write \/ \E c \in Cuts : CutOff(c)
Spec == Init /\ [][Next]_vars
\* a difference is that of the elements, in whichever order they are taken
Symmetric == Metrics(a, b) = Metrics(b, a)
Exact == (a = b) => \A ij \in Filled(m.mean) : m.mean[ij[1]][ij[2]] = R(0)
Seen == cuts = {} => \A ij \in Filled(m.mean) : m.mean[ij[1]][ij[2]] = R(0) <=> \A l \in DOMAIN a : a[l][ij[1]][ij[2]] = b[l][ij[1]][ij[2]]
\* cutting in any order is cutting at the least
Least == cuts # {} => m = Cut(Metrics(a, b), CHOOSE c \in cuts : \A x \in cuts : ~RLess(x, c))
Bounded == \A ij \in Filled(m.mean) : ~RPos(RSub(m.mean[ij[1]][ij[2]], R(1)))
Blank == \A i, j \in DOMAIN a[1] : (Square(a) /\ i > j) => m.mean[i][j] = None
\* what was written is a table which had been shown, never one with fewer blanks later
Monotone == [][Filled(m'.mean) \subseteq Filled(m.mean)]_vars
Filed == [][(file' # file) => file' = <<m>>]_vars
\* rows of the table are the elements not blank
Rows == cuts = {} => {<<r.i + 1, r.j + 1>> : r \in Table(a, b)} = Filled(m.mean)
ASSUME \A ab \in Alike : (Len(ab[1]) = 1 /\ Len(ab[1][1]) = 2) => Out("T", [a |-> ab[1], b |-> ab[2], m |-> Metrics(ab[1], ab[2]), c |-> Cut(Metrics(ab[1], ab[2]), Norm(3, 5))])

ASSUME \A x, y \in -3..3 : Defined(x, y) => Pad(x, y) = Pad(y, x) /\ Pad(x, y) = Pad(-x, -y) /\ (Pad(x, y) = R(0) <=> x = y)
\* a run passes if and only if all differences of its elements do
ASSUME \A k \in DOMAIN Limit : \A d \in {0, 1, 9, 10, 99, 100, 1000000} : Passes(k, <<<<0, d>>, <<d, 0>>>>) <=> d < Limit[k]
=============================================================================
