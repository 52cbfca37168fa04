------------------------------ MODULE ContoursMC ------------------------------
EXTENDS Contours
CONSTANTS Bound
Q(a, b) == Norm(a, b)
Sym(x) == [pq \in {<<"h", "w0">>, <<"w0", "h">>, <<"Omm", "h">>, <<"h", "Omm">>, <<"Omm", "w0">>, <<"w0", "Omm">>} |->
             IF SetOf(pq) = {"h", "w0"} THEN x[1] ELSE IF SetOf(pq) = {"h", "Omm"} THEN x[2] ELSE x[3]]
W == [fid |-> [h |-> Q(2, 3), w0 |-> R(-1), Omm |-> Q(1, 3)],
      mats |-> <<[words |-> <<"WL">>, sig |-> [h |-> Q(1, 10), w0 |-> Q(1, 2), Omm |-> Q(1, 20)], rho |-> Sym(<<Q(-1, 2), R(0), Q(1, 4)>>)],
                 [words |-> <<"GCph">>, sig |-> [h |-> Q(1, 5), w0 |-> Q(1, 4), Omm |-> Q(1, 10)], rho |-> Sym(<<Q(3, 4), Q(-1, 4), R(0)>>)],
                 [words |-> <<"WL", "+", "GCph", "+", "XC", "(", "WL", ",", "GCph", ")">>, sig |-> [h |-> Q(1, 20), w0 |-> Q(1, 8), Omm |-> Q(1, 40)],
                  rho |-> Sym(<<Q(1, 2), Q(1, 2), Q(-1, 4)>>)]>>]
C1 == [gauss |-> <<[cl |-> 680, alpha |-> 250], [cl |-> 950, alpha |-> 150]>>, ellipse |-> <<[cl |-> 680, alpha |-> 400], [cl |-> 950, alpha |-> 200]>>]
C2 == [gauss |-> <<[cl |-> 950, alpha |-> 500]>>, ellipse |-> <<[cl |-> 900, alpha |-> 300], [cl |-> 500, alpha |-> 125]>>]
ParLists == {<<>>, <<"h", "w0">>, <<"w0", "h">>, <<"w0", "Omm", "h">>, <<"Omm">>}
Orders == {<<1, 2, 3>>, <<3, 1, 2>>, <<2>>, <<3, 2>>}
VARIABLES act, n
vars == <<pars, ranges, files, cls, ready, pic, act, n>>
NoPic == [panels |-> <<>>, legend |-> <<>>]
Init == pars = <<"h", "w0">> /\ ranges = Ranges(W, pars) /\ files = [f \in {"given"} |-> [p \in {"h", "w0", "Omm"} |->
                    [lo |-> [at |-> Q(-3, 2), reach |-> R(0)], hi |-> [at |-> Q(5, 4), reach |-> R(0)]]]]
        /\ cls = C1 /\ ready = SetOf(pars) /\ pic = NoPic /\ act = [op |-> "init"] /\ n = 0
Next == /\ n < Bound /\ n' = n + 1
        /\ \/ \E ps \in ParLists : Choose(W, ps) /\ act' = [op |-> "choose", pars |-> ps]
           \/ Compute(W) /\ act' = [op |-> "compute"]
           \/ \E f \in {"given", "mine", "none"} : Load(f) /\ act' = [op |-> "load", file |-> f, found |-> f \in DOMAIN files]
           \/ \E o \in BOOLEAN : Save("mine", o) /\ act' = [op |-> "save", file |-> "mine", over |-> o]
           \/ \E c \in {C1, C2} : Configure(c) /\ act' = [op |-> "configure", cls |-> c]
           \/ \E o \in Orders : Draw(W, o) /\ act' = [op |-> "draw", order |-> o]
Spec == Init /\ [][Next]_vars
View == <<pars, ranges, files, cls, ready>>
\* pictures are functions of the other variables and the order: the state space is that of these
Emit == /\ (act'.op = "draw" => Out("D", [pars |-> pars, ranges |-> ranges, order |-> act'.order, cls |-> cls, pic |-> pic']))
        /\ Out("T", [pars |-> pars, ranges |-> ranges, files |-> files, cls |-> cls, act |-> act', pars2 |-> pars', ranges2 |-> ranges', files2 |-> files'])

Grid == pic.panels
N == Len(Grid)
Below == pic # NoPic => \A i, j \in 1..N : Grid[i][j].on <=> j <= i
\* the region of an ellipse casts the intervals of the two Gaussians as shadows
Shadows == \A i, j \in 1..N : i > j => \A k \in DOMAIN Grid[i][j].marks : LET e == Grid[i][j].marks[k] IN
    /\ \A g \in SetOf(Grid[j][j].marks) : g.matrix = e.matrix => g.var = e.xx /\ g.mean = e.x
    /\ \A g \in SetOf(Grid[i][i].marks) : g.matrix = e.matrix => g.var = e.yy /\ g.mean = e.y
    /\ RPos(RSub(RMul(e.xx, e.yy), RMul(e.xy, e.xy)))
Everywhere == pic # NoPic => \A i, j \in 1..N : j <= i => {k.matrix : k \in SetOf(Grid[i][j].marks)} = {l.matrix : l \in SetOf(pic.legend)}
Reversed(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Turn(e) == [e EXCEPT !.x = e.y, !.y = e.x, !.xx = e.yy, !.yy = e.xx]
Transposed == [][act'.op = "draw" =>
    LET other == Picture(W, Reversed(pars), act'.order, cls).panels
        m == Len(pars) IN
    \A i, j \in DOMAIN pars : j < i => MapSeq(Turn, other[m + 1 - j][m + 1 - i].marks) = pic'.panels[i][j].marks]_vars
Unique == \A a, b \in DOMAIN pic.legend : pic.legend[a].label = pic.legend[b].label => a = b
KeptFiles == [][\A f \in DOMAIN files : f \in DOMAIN files' /\ (act'.op # "save" => files'[f] = files[f])]_vars
DrawingReads == [][act'.op = "draw" => <<pars', ranges', files', cls', ready'>> = <<pars, ranges, files, cls, ready>>]_vars
ASSUME \A m \in DOMAIN W.mats : Out("H", [m |-> m, heat |-> Heat(W, m)])
ASSUME Out("W", [w |-> [fid |-> W.fid, mats |-> MapSeq(LAMBDA M : [words |-> M.words, sig |-> M.sig,
                        rho |-> [a \in DOMAIN W.fid |-> [b \in DOMAIN W.fid |-> IF a = b THEN R(1) ELSE M.rho[<<a, b>>]]]], W.mats)]])
=============================================================================
