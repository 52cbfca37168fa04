---------------------------- MODULE CombinedMC ----------------------------
EXTENDS Combined
CONSTANTS NW
VARIABLES w, last
xvars == <<cl, noise, delta, recorded, files, w, last>>

P == 1..3
\* correlations of three probes with one bin each, positive definite
Cs == << << <<2, 1, 0>>, <<1, 2, 1>>, <<0, 1, 2>> >>,
         << <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 1>> >>,
         << <<4, 2, 2>>, <<2, 2, 1>>, <<2, 1, 2>> >> >>
Layouts == << << <<3, 5, 9>>, <<3, 5, 9>>, <<3, 5, 9>> >>,
              << <<3, 5, 9>>, <<5, 9, 11>>, <<5, 8>> >>,
              << <<5>>, <<5, 9, 11>>, <<3, 5, 9>> >> >>
Pars == <<"h", "w0", "b1", "b2", "b3">>
Meets(g, a, b) == SelectSeq(g[a], LAMBDA l : l \in SetOf(g[b]))
Blocks(g, f(_, _, _)) == TLCEval({[a |-> p[1], b |-> p[2], l |-> Meets(g, p[1], p[2]),
                           x |-> [t \in 1..Len(Meets(g, p[1], p[2])) |-> << <<f(p[1], p[2], Meets(g, p[1], p[2])[t])>> >>]]
                          : p \in {q \in P \X P : q[1] <= q[2]}})
Der(k, i, a, b, l) == (i > 2 /\ a # i - 2 /\ b # i - 2)
World(c, g, k) == TLCEval(
    LET S == Blocks(Layouts[g], LAMBDA a, b, l : Cs[IF l = 9 THEN 1 + (c % 3) ELSE c][a][b]) IN
    [S |-> S, cosmo |-> <<"h", "w0">>, nuis |-> [b1 |-> 1, b2 |-> 2, b3 |-> 3], uncorrelated |-> FALSE,
     der |-> [p \in SetOf(Pars) |-> LET i == PosOf(p, Pars) IN
                Blocks(Layouts[g], LAMBDA a, b, l : IF Der(k, i, a, b, l) THEN 0
                                                    ELSE ((i * 5 + a * 3 + b * 7 + l + k) % 7) - 3)]])
\* probes without cross-correlation
Plain(g, k) == [World(2, g, k) EXCEPT !.S = Blocks(Layouts[g], LAMBDA a, b, l : IF a = b THEN 1 + ((a + l) % 2) ELSE 0), !.uncorrelated = TRUE]
\* computed once, and shared by all states
Worlds == TLCEval(<< World(1, 2, 1), Plain(2, 2), World(3, 3, 3), World(1, 1, 4), World(2, 3, 5), World(3, 2, 6) >>)
W == Worlds[w]

DVs == << << <<1, 1>> >>, << <<2, 2>> >>, << <<1, 2>> >>, << <<1, 1>>, <<2, 1>>, <<2, 2>> >>, << <<2, 2>>, <<1, 1>> >>,
          << <<3, 3>>, <<1, 2>> >>, << <<3, 3>> >> >>
Runs == {<<DVs[i]>> : i \in 1..Len(DVs)} \cup {<<DVs[1], DVs[3], DVs[5]>>, <<DVs[4], DVs[1]>>, <<DVs[2], DVs[4], DVs[1]>>,
                                               <<DVs[7], DVs[6]>>, <<DVs[1], DVs[6], DVs[7]>>}

MCInit == w \in 1..NW /\ recorded = {} /\ files = {} /\ last = <<"init">> /\ cl = {} /\ noise = {} /\ delta = {}
MCNext == /\ UNCHANGED <<cl, noise, delta, w>>
          /\ \/ \E r \in Runs : DoStage(r) /\ last' = <<"stage", r>>
             \/ recorded # {} /\ DoForget /\ last' = <<"forget">>
             \/ \E dv \in files : DoRemove(dv) /\ last' = <<"remove", dv>>
Spec == MCInit /\ [][MCNext]_xvars
View == <<recorded, files, w>>

\* a matrix that needs single-probe results is only ever written after them
NeverUnsupported == [][\A dv \in files' \ files : ~Single(dv) => Own(dv) \subseteq recorded']_xvars
WrittenStays == [][last'[1] = "stage" => (files \subseteq files' /\ recorded \subseteq recorded')]_xvars

\* statements about the matrices themselves, checked once per world, in the initial states
First == recorded = {} /\ files = {}
All == {DVs[i] : i \in 1..Len(DVs)} \cup {<< <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<3, 2>>, <<3, 3>> >>, << <<1, 3>>, <<2, 2>> >>}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Turn(dv) == [k \in 1..Len(dv) |-> <<dv[k][2], dv[k][1]>>]
Labels == First => \A dv \in All : DOMAIN Fisher(W, dv) = Relevant(W, dv) \X Relevant(W, dv)
SymmetricF == First => \A dv \in All : LET F == Fisher(W, dv) IN \A pq \in DOMAIN F : F[pq] = F[<<pq[2], pq[1]>>]
OrderFree == First => \A dv \in All : Fisher(W, dv) = Fisher(W, Rev(dv)) /\ Fisher(W, dv) = Fisher(W, Turn(dv))
Positive == First => \A dv \in All : LET F == Fisher(W, dv) IN \A p \in Relevant(W, dv) : F[<<p, p>>].n >= 0
\* every multipole of a probe once: jointly or alone
Once == First => \A dv \in All : ~Single(dv) => \A p \in Own(dv) :
            /\ AloneOn(W, dv, p) \cap Ells(W.S, dv) = {}
            /\ AloneOn(W, dv, p) \cup Ells(W.S, dv) = SetOf(Grid(W.S, p, p))
\* probes without cross-correlation: the whole of one plus the whole of the other, whatever their ranges
UncorrelatedAdd == (First /\ W.uncorrelated) =>
    \A a \in P, b \in P : a # b =>
        LET F == Fisher(W, << <<a, a>>, <<b, b>> >>)
            FA == Fisher(W, Auto(a))
            FB == Fisher(W, Auto(b)) IN
        \A pq \in DOMAIN F : F[pq] = RAdd(IF pq \in DOMAIN FA THEN FA[pq] ELSE R(0), IF pq \in DOMAIN FB THEN FB[pq] ELSE R(0))

FewFiles == Cardinality(files) <= 2
MoreFiles == Cardinality(files) <= 4
St(r, f) == [w |-> w, rec |-> r, files |-> f]
Emit == Out("T", [pre |-> St(recorded, files), act |-> last', post |-> St(recorded', files'),
                  out |-> IF last'[1] = "stage" THEN Outcome(recorded, files, last'[2]).out ELSE "ok"])
Mat(F) == {[p |-> pq[1], q |-> pq[2], v |-> <<F[pq].n, F[pq].d>>] : pq \in DOMAIN F}
EmitWorlds == \A k \in 1..NW : Out("W", [w |-> k, S |-> Worlds[k].S, der |-> Worlds[k].der, cosmo |-> Worlds[k].cosmo, nuis |-> Worlds[k].nuis,
                 f |-> {[dv |-> dv, m |-> Mat(Fisher(Worlds[k], dv))] : dv \in All}])
ASSUME EmitWorlds
=============================================================================
