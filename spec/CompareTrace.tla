----------------------------- MODULE CompareTrace -----------------------------
(* Recorded comparisons:                                                        *)
(*   pad     [x, y, ref, got]               numbers or arrays ("", mean, max)   *)
(*   frame   [x, y, rx, ry, cx, cy, out, got]  tables with labels               *)
(*   percent [x, y, got]                    of a reference                      *)
(*   new     [a, b, mean, var, rows]        two spectra                         *)
(*   cut     [c, mean, var]                 larger differences made blank       *)
(*   files   [mean, var]                    what is written                     *)
(*   heat    [kind, got, info]              what is drawn                       *)
(*   runs    [one, two, back, swap, got]    quantities of two runs              *)
(*   verdict [kind, one, two, got]          messages about two runs             *)
(*   grid    [y, tri, times, got, off]      spectra drawn, element by element   *)
(*   panels  [ys, from, to, got, off]       several spectra, some elements      *)
(*   bars    [rows, ask, bins, got]         errors of some matrices             *)
(*   gains   [vals, ask, got]               figures of merit against the bins   *)
(*   dirs    [names, sub, got]              runs of a folder                    *)
(*   hybrid  [one, got]                     matrices replaced                   *)
EXTENDS Compare
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, m
tvars == <<tid, pos, ok, m>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ m = <<>>
After(e) == CASE e.op = "new" -> Metrics(e.a, e.b) [] e.op = "cut" -> Cut(m, e.c) [] OTHER -> m
RunClause(e) ==
    IF DOMAIN e.got # Shared(e.one, e.two) THEN "jobs compared"
    ELSE IF \E j \in DOMAIN e.got : DOMAIN e.got[j] # Shared(e.one[j], e.two[j]) THEN "spectra compared"
    ELSE IF \E j \in DOMAIN e.got : \E k \in DOMAIN e.got[j] : \E q \in DOMAIN e.one[j][k] : e.got[j][k][q] # PadSeq(e.one[j][k][q], e.two[j][k][q]) THEN "differences of two runs"
    ELSE IF e.back # e.got THEN "comparison read back" ELSE ""
Of(e, n) == CHOOSE r \in SetOf(e.rows) : r.fisher = n /\ r.bins = e.bins
Merits(e) == [i \in DOMAIN e.ask |-> Of(e, e.ask[i]).vals[Len(e.pars)]]
BarRow(e, i) == [j \in DOMAIN e.pars |-> LET v == Of(e, e.ask[i]).vals[j] IN IF j = Len(e.pars) THEN RDiv(v, RMax(Merits(e))) ELSE v]
Panel(e, i, j) == IF e.tri /\ i < j THEN <<>> ELSE [t \in 1..e.times |-> e.y[i][j]]
Clause(e) ==
    CASE e.op = "pad" -> IF e.got # (IF e.ref = "" THEN PadSeq(e.x, e.y) ELSE Weighted(e.x, e.y, e.ref)) THEN "difference" ELSE ""
      [] e.op = "frame" -> IF SetOf(e.rx) # SetOf(e.ry) \/ SetOf(e.cx) # SetOf(e.cy) THEN IF e.out = "ok" THEN "different tables compared" ELSE ""
                           ELSE IF e.out # "ok" THEN "tables not compared"
                           ELSE IF \E i \in DOMAIN e.rx, j \in DOMAIN e.cx : e.got[i][j] # Pad(e.x[i][j], e.y[PosOf(e.rx[i], e.ry)][PosOf(e.cx[j], e.cy)]) THEN "difference of tables" ELSE ""
      [] e.op = "percent" -> IF e.got # [i \in DOMAIN e.x |-> Norm(e.x[i] - e.y[i], e.y[i])] THEN "percentage" ELSE ""
      [] e.op \in {"new", "cut"} -> LET n == After(e) IN
                         IF e.mean # n.mean THEN "mean differences" ELSE IF e.var # n.var THEN "scatter of the differences"
                         ELSE IF e.op = "new" /\ (SetOf(e.rows) # Table(e.a, e.b) \/ Len(e.rows) # Cardinality(Table(e.a, e.b))) THEN "table of the differences" ELSE ""
      [] e.op = "files" -> IF e.mean # m.mean \/ e.var # m.var THEN "differences written" ELSE ""
      [] e.op = "heat" -> LET x == m[e.kind] IN
                          IF e.got # x THEN "differences drawn"
                          ELSE IF e.kind = "mean" THEN LET s == SetToSeq({<<ij, x[ij[1]][ij[2]]>> : ij \in Filled(x)})
                                                            v == [i \in DOMAIN s |-> s[i][2]] IN
                               IF \E k \in {"Mean", "Max", "Min"} :
                                  LET t == RMul(R(200000), IF k = "Mean" THEN Mean(v) ELSE IF k = "Max" THEN RMax(v) ELSE RMin(v))
                                      d == RSub(t, R(e.info[k])) IN RLess(Norm(51, 100), [d EXCEPT !.n = Abs(d.n)]) THEN "summary drawn" ELSE ""
                          ELSE ""
      [] e.op = "runs" -> RunClause(e)
      [] e.op = "verdict" -> IF DOMAIN e.got # {k \in DOMAIN e.diffs : k \in SetOf(e.one) \cap SetOf(e.two)} THEN "matrices compared"
                             ELSE IF \E k \in DOMAIN e.got : e.got[k] # Passes(e.kind, e.diffs[k]) THEN "verdict" ELSE ""
      [] e.op = "grid" -> IF e.got # [i \in DOMAIN e.y |-> [j \in DOMAIN e.y[1] |-> Panel(e, i, j)]] THEN "spectra drawn"
                          ELSE IF e.xs # [i \in DOMAIN e.y |-> [j \in DOMAIN e.y[1] |-> IF e.tri /\ i < j THEN <<>> ELSE [t \in 1..e.times |-> e.x]]] THEN "multipoles drawn"
                          ELSE IF e.off # [i \in DOMAIN e.y |-> [j \in DOMAIN e.y[1] |-> e.tri /\ i < j]] THEN "panels shown" ELSE ""
      [] e.op = "panels" -> LET ni == e.to[1] - e.from[1] + 1
                                nj == e.to[2] - e.from[2] + 1 IN
                            IF e.got # [i \in 1..ni |-> [j \in 1..nj |-> IF i + e.from[1] < j + e.from[2] THEN <<>>
                                          ELSE [t \in DOMAIN e.ys |-> [l \in DOMAIN e.ys[t] |-> e.ys[t][l][i + e.from[1]][j + e.from[2]]]]]] THEN "elements drawn"
                            ELSE IF e.off # [i \in 1..ni |-> [j \in 1..nj |-> i + e.from[1] < j + e.from[2]]] THEN "panels shown" ELSE ""
      [] e.op = "bars" -> IF e.got # [i \in DOMAIN e.ask |-> BarRow(e, i)] THEN "errors of the matrices"
                          ELSE IF e.drawn # e.got THEN "bars drawn"
                          ELSE IF e.kept # e.rows THEN "results changed by a plot" ELSE ""
      [] e.op = "gains" -> IF e.got # [k \in DOMAIN e.ask |-> [s \in 1..2 |-> MapSeq(LAMBDA r : <<r.bins, r.v>>,
                               SelectSeq(e.vals, LAMBDA r : r.fisher = e.ask[k] /\ r.red = (s = 2)))]] THEN "gains drawn" ELSE ""
      [] e.op = "dirs" -> IF SetOf(e.got) # {[bins |-> d.bins, name |-> d.name] : d \in {d \in SetOf(e.names) : d.run /\ d.sub = e.sub}} THEN "runs loaded" ELSE ""
      [] e.op = "hybrid" -> IF e.got # [b \in DOMAIN e.one |-> [n \in DOMAIN e.one[b] |-> IF n \in SetOf(e.hyb) THEN e.one["4"][n] ELSE e.one[b][n]]] THEN "matrices replaced" ELSE ""
      [] OTHER -> "unknown event"
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN ok' = TRUE /\ pos' = pos + 1 /\ m' = After(Ev) /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c) /\ UNCHANGED m
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
