--------------------------- MODULE CovarianceMC ---------------------------
EXTENDS Covariance
CONSTANTS MaxLen
VARIABLES last, world
xvars == <<cl, noise, delta, last, world>>

\* worlds: bins per probe, multipoles per probe, orientation in which the pairs are stored
Worlds == << [nb |-> <<2, 3, 1>>, g |-> << <<3, 5, 9>>, <<3, 5, 9>>, <<3, 5, 9>> >>, rev |-> {}],
             [nb |-> <<2, 1, 2>>, g |-> << <<3, 5, 9>>, <<5, 9, 13>>, <<2, 5, 8>> >>, rev |-> {<<1, 2>>, <<2, 3>>}],
             [nb |-> <<1, 3, 2>>, g |-> << <<7>>, <<5, 7, 11>>, <<7, 11>> >>, rev |-> {<<1, 3>>}],
             [nb |-> <<3, 2, 1>>, g |-> << <<3, 5>>, <<5, 8>>, <<3, 8>> >>, rev |-> {<<1, 2>>, <<1, 3>>, <<2, 3>>}] >>
P == 1..3
Content(k, a, b, l, i, j) == LET u == IF a = b /\ i > j THEN <<j, i>> ELSE <<i, j>> IN
                             ((k * 7 + a * 11 + b * 5 + l * 3 + u[1] * 13 + u[2] * 17) % 23) - 6 + (IF a = b /\ i = j THEN 60 ELSE 0)
Grids(w, a, b) == SelectSeq(Worlds[w].g[a], LAMBDA l : l \in SetOf(Worlds[w].g[b]))
Block(w, k, a, b) == LET o == IF <<a, b>> \in Worlds[w].rev THEN <<b, a>> ELSE <<a, b>>
                         ls == Grids(w, a, b) IN
    [a |-> o[1], b |-> o[2], l |-> ls, w |-> [t \in 1..Len(ls) |-> 1 + (ls[t] % 2)],
     x |-> [t \in 1..Len(ls) |-> [i \in 1..Worlds[w].nb[o[1]] |-> [j \in 1..Worlds[w].nb[o[2]] |-> Content(k, o[1], o[2], ls[t], i, j)]]]]
Blocks(w, k) == {Block(w, k, p[1], p[2]) : p \in {q \in P \X P : q[1] <= q[2]}}
NoiseFile(w, k) == {[a |-> c.a, b |-> c.b, x |-> [i \in 1..Len(c.x[1]) |-> [j \in 1..Len(c.x[1][1]) |->
                        IF c.a = c.b /\ i = j THEN k + i + c.a ELSE 0]]] : c \in Blocks(w, 0)}
Shot == <<<<1, 2, 3>>, <<4, 5, 6>>, <<7, 8, 9>>>>

Pairs == P \X P
DVs == {<<p>> : p \in Pairs} \cup (IF MaxLen < 2 THEN {} ELSE {<<p, q>> : p \in Pairs, q \in Pairs})
       \cup (IF MaxLen < 3 THEN {} ELSE {<<p, q, r>> : p \in Pairs, q \in Pairs, r \in Pairs})
Distinct(dv) == Cardinality({{dv[k][1], dv[k][2]} : k \in 1..Len(dv)}) = Len(dv)

MCInit == /\ world \in 1..Len(Worlds) /\ cl = {} /\ noise = {} /\ delta = {} /\ last = <<"init">>
MCNext ==
    /\ UNCHANGED world
    /\ \/ \E k \in 1..2 : cl = {} /\ DoLoad(Blocks(world, k)) /\ last' = <<"load", k>>
       \/ \E k \in 1..2 : cl # {} /\ DoNoise(NoiseFile(world, k)) /\ last' = <<"file", k>>
       \/ \E f \in 1..2 : cl # {} /\ DoEvaluate(f, Shot, <<1, 1, 3>>) /\ last' = <<"evaluate", f>>
Spec == MCInit /\ [][MCNext]_xvars
View == <<cl, noise, delta, world>>

Swap(dv, k) == [m \in 1..Len(dv) |-> IF m = k THEN <<dv[k][2], dv[k][1]>> ELSE dv[m]]
Flip(t, k, dv) == IF t[1] = k /\ dv[k][1] # dv[k][2] THEN <<t[1], t[3], t[2]>> ELSE t
Ready == delta # {}

Symmetric == Ready => \A dv \in {d \in DVs : Distinct(d)} : \A l \in Ells(delta, dv) :
    LET m == Cov(delta, dv, l) IN \A r \in DOMAIN m, c \in DOMAIN m : m[r][c] = m[c][r]
\* swapping the probes of a spectrum only permutes the elements, and those of the derivatives with them
SwapPermutes == Ready => \A dv \in {d \in DVs : Distinct(d) /\ Len(d) <= 2} : \A k \in 1..Len(dv) :
    LET dw == Swap(dv, k)
        s == Stack(delta, dv, 1)
        t == Stack(delta, dw, 1)
        pi == [r \in 1..Len(s) |-> PosOf(Flip(s[r], k, dv), t)] IN
    /\ {pi[r] : r \in DOMAIN pi} = 1..Len(t)
    /\ Ells(delta, dv) = Ells(delta, dw)
    /\ \A l \in Ells(delta, dv) :
         LET m == Cov(delta, dv, l)
             n == Cov(delta, dw, l) IN \A r \in DOMAIN m, c \in DOMAIN m : m[r][c] = n[pi[r]][pi[c]]
    /\ \A l \in Meeting(delta, dv) :
         LET m == Vector(delta, dv, l)
             n == Vector(delta, dw, l) IN \A r \in DOMAIN m : m[r] = n[pi[r]]
\* the block of two spectra is the same in every data vector that holds them
Blockwise == Ready => \A dv \in {d \in DVs : Distinct(d) /\ Len(d) = 2} : \A k \in 1..2 :
    \A l \in Ells(delta, dv) : LET s == Stack(delta, dv, 1)
                                   m == Cov(delta, dv, l)
                                   n == Cov(delta, <<dv[k]>>, l)
                                   u == Stack(delta, <<dv[k]>>, 1) IN
        \A r \in DOMAIN s, c \in DOMAIN s : (s[r][1] = k /\ s[c][1] = k) =>
            m[r][c] = n[PosOf(<<1, s[r][2], s[r][3]>>, u)][PosOf(<<1, s[c][2], s[c][3]>>, u)]
\* every element once
StackOnce == Ready => \A dv \in DVs : Distinct(dv) =>
    /\ NoDup(Stack(delta, dv, 1))
    /\ Len(Stack(delta, dv, 1)) = SumSeq([k \in 1..Len(dv) |-> LET s == Shape(delta, dv[k][1], dv[k][2]) IN
            IF dv[k][1] = dv[k][2] THEN (s[1] * (s[1] + 1)) \div 2 ELSE s[1] * s[2]])
NoiseOnEqual == \A e \in noise : e.a # e.b => \A i \in DOMAIN e.x : \A j \in DOMAIN e.x[i] : e.x[i][j] = 0

DvList == << << <<1, 1>> >>, << <<2, 1>>, <<2, 2>> >>, << <<1, 2>>, <<3, 1>> >>, << <<3, 2>>, <<1, 1>>, <<1, 3>> >>,
             << <<1, 1>>, <<1, 2>>, <<2, 2>> >>, << <<3, 3>>, <<2, 3>> >>, << <<1, 3>>, <<2, 2>>, <<2, 1>>, <<3, 3>> >> >>
St == [w |-> world, cl |-> cl, noise |-> noise, delta |-> delta]
Emit == Out("T", [pre |-> St, act |-> last',
                  post |-> [w |-> world, cl |-> cl', noise |-> noise', delta |-> delta'],
                  cov |-> IF last'[1] # "evaluate" THEN <<>> ELSE
                          [k \in 1..Len(DvList) |-> [dv |-> DvList[k], l |-> Up(Ells(delta', DvList[k])),
                             m |-> [t \in 1..Cardinality(Ells(delta', DvList[k])) |-> Cov(delta', DvList[k], Up(Ells(delta', DvList[k]))[t])]]]])
=============================================================================
