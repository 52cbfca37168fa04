------------------------------- MODULE ImportMC -------------------------------
EXTENDS Import
CONSTANT Deep
H2 == Norm(1, 2)
Base == [h |-> H2, Omm |-> Norm(1, 4), OmDE |-> Norm(3, 4), Omb |-> Norm(1, 16), w0 |-> R(-1), wa |-> R(0), ns |-> R(1), sigma8 |-> Norm(4, 5)]
Tab(n) == <<[z |-> R(2), k |-> H2, lin |-> R(n + 1), non |-> R(n + 5)], [z |-> R(2), k |-> R(3), lin |-> R(n + 2), non |-> R(n + 6)],
            [z |-> R(1), k |-> H2, lin |-> R(n + 3), non |-> R(n + 7)], [z |-> R(1), k |-> R(3), lin |-> R(n + 4), non |-> R(n + 8)],
            [z |-> R(0), k |-> H2, lin |-> R(n + 9), non |-> R(n + 9)], [z |-> R(0), k |-> R(3), lin |-> R(n + 9), non |-> R(n + 9)]>>
AllFiles == <<<<>>>> \o SetToSeq({[par |-> p, minus |-> s, eps |-> e] : p \in DOMAIN Theirs, s \in BOOLEAN, e \in {4, 7}})
FileSet == {i \in DOMAIN AllFiles : i = 1 \/ AllFiles[i].eps = 7 \/ AllFiles[i].par = "h"}
Kept == IF Deep THEN {S \in SUBSET FileSet : Cardinality(S) \in 1..3} ELSE {S \in SUBSET FileSet : Cardinality(S) = 2}

\* the files of a folder, one after the other with the same set of parameters
VARIABLES flat, todo, cur, done
vars == <<flat, todo, cur, done>>
Init == flat \in BOOLEAN /\ todo \in Kept /\ cur = Base /\ done = <<>>
Convert(i) == /\ i \in todo /\ cur = Base
              /\ LET j == Job(AllFiles[i])
                     c == Pars(cur, flat, j) IN
                 /\ cur' = c
                 /\ done' = Append(done, [job |-> j, file |-> i, pars |-> c, spec |-> Spectrum(Tab(i), c.h)])
              /\ todo' = todo \ {i} /\ UNCHANGED flat
Reset == cur # Base /\ cur' = Base /\ UNCHANGED <<flat, todo, done>>
Next == Reset \/ \E i \in DOMAIN AllFiles : Convert(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(todo = {})

OnePlace == \A a, b \in DOMAIN done : done[a].job = done[b].job => a = b
OwnUnits == \A a \in DOMAIN done : LET d == done[a] IN
    /\ d.pars = Pars(Base, flat, Job(AllFiles[d.file]))
    /\ \A i, j \in 1..2 : /\ PerCube(RMul(d.spec.lin[i][j], RMul(d.pars.h, RMul(d.pars.h, d.pars.h))), R(1)) = Row(Tab(d.file), d.spec.z[i], RDiv(d.spec.k[j], d.pars.h)).lin
    /\ \A i \in DOMAIN d.spec.z : RPos(d.spec.z[i])
\* only files varying h are in other units than the central one
OnlyH == \A a \in DOMAIN done : done[a].job.dvar # "h" => done[a].pars.h = Base.h

\* layouts of columns
Square(n, f) == [i \in 1..((n * (n + 1)) \div 2) |-> SetToSortSeq({<<a, b>> \in (f..f + n - 1) \X (f..f + n - 1) : a <= b},
                                                         LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))[i]]
Rect(n, m, f) == SetToSortSeq((f..f + n - 1) \X (f..f + m - 1), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
Swap(s) == [i \in DOMAIN s |-> <<s[i][2], s[i][1]>>]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Layouts == UNION {{[pairs |-> Square(n, f), same |-> TRUE], [pairs |-> Swap(Square(n, f)), same |-> TRUE], [pairs |-> Rev(Square(n, f)), same |-> TRUE]}
                  : n \in {1, 2, 4, 10, 11}, f \in {0, 1}}
           \cup UNION {{[pairs |-> Rect(n, m, f), same |-> FALSE], [pairs |-> Rev(Rect(n, m, f)), same |-> FALSE]} : n \in {2, 4, 10}, m \in {2, 3, 10}, f \in {0, 1}}
ASSUME \A l \in Layouts : Out("C", [pairs |-> l.pairs, same |-> l.same, from |-> From(l.pairs),
                                    m |-> Columns(l.pairs, [i \in DOMAIN l.pairs |-> i], l.same)])
\* no layout loses a value, and symmetric ones are symmetric
ASSUME \A l \in Layouts : LET m == Columns(l.pairs, [i \in DOMAIN l.pairs |-> i], l.same) IN
    /\ UNION {SetOf(m[i]) : i \in DOMAIN m} = DOMAIN l.pairs
    /\ l.same => \A i, j \in DOMAIN m : m[i][j] = m[j][i]
    /\ Len(m) >= Len(m[1])

\* changes of parameters
Named == {{"Omm", "sigma8", "bgph0"}, {"sigma8", "bgph0", "bgph1"}, {"h", "w0", "sigma8", "bgph0", "bgph1"}, {"sigma8", "aIA", "bgph0"},
          {"Omm", "sigma8", "bgph1", "bgph10"}, {"h", "sigma8"}}
Ord == <<"h", "w0", "Omm", "sigma8", "aIA", "bgph0", "bgph1", "bgph10">>
Fid == [h |-> H2, w0 |-> R(-1), Omm |-> Norm(1, 4), sigma8 |-> Norm(4, 5), aIA |-> R(2), bgph0 |-> Norm(3, 2), bgph1 |-> Norm(5, 4), bgph10 |-> R(3)]
M(names, v) == [pq \in names \X names |-> LET a == PosOf(pq[1], Ord)
                                              b == PosOf(pq[2], Ord) IN
                IF a = b THEN R(20 + a * v) ELSE R(((a * b * v) % 5) - 2)]
Cases == {[names |-> n, v |-> v, order |-> o] : n \in Named, v \in 1..3, o \in BOOLEAN}
List(c) == LET s == SetToSortSeq(c.names, LAMBDA a, b : PosOf(a, Ord) < PosOf(b, Ord)) IN IF c.order THEN s ELSE Rev(s)
Matrix(m, s, t) == [i \in DOMAIN s |-> [j \in DOMAIN s |-> m[<<s[i], s[j]>>]]]
ASSUME \A c \in Cases :
    LET m == M(c.names, c.v)
        s == List(c)
        r == SelectSeq(s, LAMBDA p : p # "sigma8")
        q == SelectSeq(s, LAMBDA p : ~IsBias(p)) IN
    Out("P", [names |-> s, fid |-> [i \in DOMAIN s |-> Fid[s[i]]], m |-> Matrix(m, s, s),
              onames |-> MapSeq(New, r), one |-> Matrix(WithoutS8(m, c.names, Fid), r, r), tnames |-> q, two |-> Matrix(Second(m, c.names, Fid), q, q)])
\* displacing only the new parameters: with sigma8 fixed, those of the biases count by 1/sigma8; then sigma8 moves them by b
ASSUME \A c \in Cases : LET m == M(c.names, c.v)
                            w == WithoutS8(m, c.names, Fid)
                            u == Second(m, c.names, Fid)
                            f(p) == IF IsBias(p) THEN RInv(Fid["sigma8"]) ELSE R(1)
                            bs == {p \in c.names : IsBias(p)} IN
    /\ \A p, q \in c.names \ {"sigma8"} : w[<<p, q>>] = RMul(RMul(f(p), m[<<p, q>>]), f(q))
    /\ \A p, q \in {x \in c.names : ~IsBias(x)} \ {"sigma8"} : u[<<p, q>>] = m[<<p, q>>]
    /\ u[<<"sigma8", "sigma8">>] = SumOver(bs, LAMBDA b : SumOver(bs, LAMBDA d : RMul(RMul(Fid[b], w[<<b, d>>]), Fid[d])))
=============================================================================
