------------------------------- MODULE StemMC -------------------------------
(* A batch of elements processed together: all are fitted on the current     *)
(* window, those that are settled keep their slope.                          *)
EXTENDS Stem
CONSTANTS Preset
P == CASE Preset = "five"  -> [n |-> 5, batch |-> 1, base |-> {100, -100, 0, -30}, step |-> {0, 3, 10}, noise |-> {0, 1, -2, 30}]
       [] Preset = "pair"  -> [n |-> 5, batch |-> 2, base |-> {100, -100}, step |-> {0, 10}, noise |-> {0, 1, 30}]
       [] Preset = "seven" -> [n |-> 7, batch |-> 1, base |-> {100, -120}, step |-> {0, 7}, noise |-> {0, 1, 30}]
       [] Preset = "more"  -> [n |-> 7, batch |-> 1, base |-> {100, -120, 0}, step |-> {0, 1, -7, 30}, noise |-> {0, 1, -1, 30}]
N == P.n
Batch == P.batch
Base == P.base
Step == P.step
Noise == P.noise
VARIABLES ys, k, got
vars == <<ys, k, got>>
X == [i \in 1..N |-> i - (N + 1) \div 2]
\* a straight line with deviations
Elements == {[i \in 1..N |-> b + s * X[i] + e[i]] : b \in Base, s \in Step, e \in [1..N -> Noise]}
Plain == {[i \in 1..N |-> b + s * X[i]] : b \in Base, s \in Step}
MCInit == /\ ys \in (IF Batch = 1 THEN {<<y>> : y \in Elements} ELSE {<<y, z>> : y \in Elements, z \in Plain \cup {[i \in 1..N |-> IF i = 1 THEN 500 ELSE 100]}})
          /\ k = 0 /\ got = [e \in 1..Batch |-> [done |-> FALSE, v |-> R(0)]]
Fitted(e) == Slope(X, ys[e], 1 + k, N - k)
MCNext == /\ \E e \in 1..Batch : ~got[e].done
          /\ got' = [e \in 1..Batch |-> IF got[e].done THEN got[e]
                                        ELSE [done |-> Settled(X, ys[e], 1 + k, N - k), v |-> Fitted(e)]]
          /\ k' = k + 1 /\ UNCHANGED ys
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
AllDone == \A e \in 1..Batch : got[e].done
Neg(y) == [i \in DOMAIN y |-> -y[i]]
Mirror(y) == [i \in DOMAIN y |-> y[N + 1 - i]]

\* what an element gets does not depend on the others
Alone == AllDone => \A e \in 1..Batch : got[e].v = Derivative(X, ys[e])
\* exact for straight lines, zero for constants
Exact == k = 0 => \A e \in 1..Batch : LET y == ys[e] IN
    (\A i \in 2..N - 1 : y[i + 1] - y[i] = y[i] - y[i - 1]) => Derivative(X, y) = R(y[2] - y[1])
Odd == k = 0 => \A e \in 1..Batch : /\ Derivative(X, Neg(ys[e])) = RNeg(Derivative(X, ys[e]))
                                    /\ Derivative(X, Mirror(ys[e])) = RNeg(Derivative(X, ys[e]))
\* the widest range: every wider central range was not linear
Widest == k = 0 => \A e \in 1..Batch : LET s == Shrink(X, ys[e], 0) IN
    /\ \A j \in 0..s - 1 : ~Linear(X, ys[e], 1 + j, N - j)
    /\ Linear(X, ys[e], 1 + s, N - s) \/ N - 2 * s = 3
\* homogeneous
Scales == k = 0 => \A e \in 1..Batch : Derivative(X, [i \in 1..N |-> 3 * ys[e][i]]) = RMul(R(3), Derivative(X, ys[e]))
Terminates == <>AllDone

Edge(e) == \E j \in 0..(N - 3) \div 2 : OnEdge(X, ys[e], 1 + j, N - j)
Emit == (k = 0 /\ Batch = 1 /\ ~Edge(1)) =>
        LET d == Derivative(X, ys[1]) IN Out("T", [y |-> ys[1], s |-> Shrink(X, ys[1], 0), n |-> d.n, d |-> d.d])
=============================================================================
