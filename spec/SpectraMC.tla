----------------------------- MODULE SpectraMC -----------------------------
(* A small universe with all four probes; its switches and parameters are     *)
(* turned one at a time.                                                      *)
EXTENDS Rational
Identity(x) == x
INSTANCE Spectra WITH V <- Identity, Add <- RAdd, Mul <- RMul, Inv <- RInv
CONSTANTS MethodsUsed, MaxTurns
VARIABLES W, turned
svars == <<W, turned>>

Names == <<"Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy", "Void">>
Rs(s) == [i \in DOMAIN s |-> R(s[i])]
Base(method, kind, n) ==
    [z |-> [i \in 1..n |-> Q(i, 2)], E |-> Rs(SubSeq(<<1, 2, 1, 2, 1, 2, 1>>, 1, n)), rt |-> Rs(SubSeq(<<1, 2, 2, 4, 4, 4, 4>>, 1, n)),
     D |-> [i \in 1..n |-> IF i < 3 THEN R(1) ELSE Q(1, 2)], D0 |-> [i \in 1..n |-> IF i < 2 THEN R(1) ELSE Q(1, 2)],
     A |-> Rs(SubSeq(<<4, 2, 6, 2, 4, 2, 2>>, 1, n)), b |-> 1, H0 |-> R(50), c |-> R(50), Om |-> Q(1, 2), method |-> method,
     kcut |-> R(1), kwid |-> Q(1, 4), offdiag |-> FALSE, ia |-> FALSE,
     par |-> [aIA |-> R(1), cIA |-> R(1), etaIA |-> R(1), bgph0 |-> R(1), bgph1 |-> R(2), bgsp0 |-> R(1), bgsp1 |-> R(3), voidbias0 |-> R(2)],
     probes |->
       [Lensing |-> [edges |-> <<Q(1, 2), Q(3, 2), R(3)>>, bias |-> "none", names |-> <<>>, ells |-> <<Q(1, 2), Q(3, 2)>>,
                     dens |-> <<Rs(SubSeq(<<0, 12, 12, 0, 0, 0, 0>>, 1, n)), Rs(SubSeq(<<0, 0, 12, 24, 12, 0, 0>>, 1, n))>>],
        PhotometricGalaxy |-> [edges |-> <<Q(1, 2), Q(3, 2), R(3)>>, bias |-> kind, names |-> <<"bgph0", "bgph1">>, ells |-> <<Q(3, 2)>>,
                     dens |-> <<Rs(SubSeq(<<2, 2, 4, 0, 0, 0, 0>>, 1, n)), Rs(SubSeq(<<0, 2, 2, 2, 4, 2, 0>>, 1, n))>>],
        SpectroscopicGalaxy |-> [edges |-> <<R(1), R(2), Q(5, 2)>>, bias |-> kind, names |-> <<"bgsp0", "bgsp1">>, ells |-> <<Q(3, 2)>>,
                     dens |-> <<Rs(SubSeq(<<0, 4, 2, 0, 0, 0, 0>>, 1, n)), Rs(SubSeq(<<0, 0, 2, 4, 2, 0, 0>>, 1, n))>>],
        Void |-> [edges |-> <<Q(1, 2), Q(3, 2)>>, bias |-> "void", names |-> <<"voidbias0">>, ells |-> <<Q(3, 2)>>,
                     dens |-> <<Rs(SubSeq(<<0, 2, 2, 2, 2, 2, 0>>, 1, n))>>]]]
Init == /\ \E k \in MethodsUsed \X {"constant", "piecewise"} \X {5, 6} :
             /\ Integrable(k[1], k[3])
             \* other ways of integrating and numbers of points once
             /\ (k[1] = "newton-cotes_4" /\ k[3] = 6) \/ k[2] = "constant"
             /\ W = Base(k[1], k[2], k[3])
        /\ turned = {}
Turn(x, w) == turned' = turned \cup {x} /\ W' = w
Next == /\ Cardinality(turned) < MaxTurns
        /\ \/ \E x \in {"bgph1", "bgsp0", "voidbias0", "aIA"} : x \notin turned /\ Turn(x, [W EXCEPT !.par[x] = R(4)])
           \/ ~W.ia /\ Turn("ia", [W EXCEPT !.ia = TRUE])
           \/ ~W.offdiag /\ Turn("offdiag", [W EXCEPT !.offdiag = TRUE])
           \/ W.kcut = R(1) /\ Turn("kcut", [W EXCEPT !.kcut = Q(1, 2)])
Spec == Init /\ [][Next]_svars

Same(w) == [w EXCEPT !.ia = FALSE, !.offdiag = FALSE, !.kcut = R(1), !.par = Base("quad", "constant", 5).par]
Table(w) == LET ws == TLCEval(AllWeights(w))
                rule == TLCEval(Rule(w.method, Nz(w))) IN
    TLCEval([pq \in Pairs(Names) |-> LET s == Spectrum(w, rule, ws, pq[1], pq[2]) IN
        TLCEval([x \in (Ells(w, pq[1], pq[2]) \X Bins(w, pq[1])) \X Bins(w, pq[2]) |-> s[x[1][1]][x[1][2]][x[2]]])])
\* which elements a parameter may reach
Owner(x) == CASE x \in {"bgph0", "bgph1"} -> "PhotometricGalaxy" [] x \in {"bgsp0", "bgsp1"} -> "SpectroscopicGalaxy"
              [] x = "voidbias0" -> "Void" [] OTHER -> "Lensing"
Reaches(x, pq) == CASE x = "kcut" -> "Void" \in {pq[1], pq[2]}
                    [] x = "offdiag" -> pq[1] = "SpectroscopicGalaxy" /\ pq[2] = "SpectroscopicGalaxy"
                    [] OTHER -> Owner(x) \in {pq[1], pq[2]}
OnlyThere == LET t == Table(W)
                 t0 == Table(Same(W)) IN
    /\ \A pq \in DOMAIN t : (\A x \in turned : ~Reaches(x, pq)) => t[pq] = t0[pq]
    \* with one value per bin, only the elements of this bin
    /\ (turned = {"bgph1"} /\ W.probes["PhotometricGalaxy"].bias = "constant") =>
          \A y \in DOMAIN t[<<"Lensing", "PhotometricGalaxy">>] :
             (t[<<"Lensing", "PhotometricGalaxy">>][y] # t0[<<"Lensing", "PhotometricGalaxy">>][y]) => y[2] = 2
Symmetric == LET t == Table(W) IN \A p \in DOMAIN W.probes : \A x \in DOMAIN t[<<p, p>>] :
    t[<<p, p>>][x] = t[<<p, p>>][<< <<x[1][1], x[2]>>, x[1][2]>>]
Apart == ~W.offdiag => LET t == Table(W)[<<"SpectroscopicGalaxy", "SpectroscopicGalaxy">>] IN \A x \in DOMAIN t : x[1][2] # x[2] => t[x] = R(0)

\* the rules integrate what they should: powers up to their order, exactly
PowerSum(method, m, d) == Dot(Weights(method, m), [k \in 1..m |-> Pow(R(k - 1), d)])
Exact(method, m, d) == PowerSum(method, m, d) = RMul(Pow(R(m - 1), d + 1), Q(1, d + 1))
ASSUME /\ \A n \in 1..6, panels \in 1..2 : \A d \in 0..n : n * panels < 9 => Exact("newton-cotes_" \o ToString(n), n * panels + 1, d)
       /\ \A m \in 2..9 : Exact("quad", m, 0) /\ Exact("quad", m, 1)
       /\ \A m \in 3..9, d \in 0..2 : Exact("simpson", m, d)
       /\ \A d \in 0..3 : Exact("romberg", 3, d)
       /\ \A d \in 0..5 : Exact("romberg", 5, d)
\* (the excess of a grid is integrated by the order that fits it)
       /\ \A d \in 0..1 : Exact("newton-cotes_4", 6, d) /\ Exact("newton-cotes_2", 6, d)

Rows(w) == LET t == Table(w) IN {[p |-> pq[1], q |-> pq[2], e |-> {[l |-> x[1][1], i |-> x[1][2], j |-> x[2], v |-> t[pq][x]] : x \in DOMAIN t[pq]}] : pq \in DOMAIN t}
Emit == Out("T", [pre |-> [w |-> W, turned |-> turned], act |-> turned' \ turned, post |-> [w |-> W', turned |-> turned', rows |-> Rows(W')]])
=============================================================================
