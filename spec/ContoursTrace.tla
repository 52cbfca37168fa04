---------------------------- MODULE ContoursTrace ----------------------------
(* Recorded sessions with a plotter:                                            *)
(*   world    [fid, mats, cls, pars]                  new plotter, no ranges    *)
(*   choose   [pars, got]                             <<>>: all                 *)
(*   config   [cls, keep]       compute [got]      load [file, out, got]        *)
(*   save     [file, over, got: what the file holds]                            *)
(*   draw     [order, got: picture, limits]                                     *)
(*   tri      [file, write, save, order, got, limits, ranges, saved, written]   *)
(*   heat     [matrix, got]                                                     *)
(*   labels   [names, got] of a matrix with biases                              *)
(*   results  of several cosmologies: [mats, cosmos, sums, marg, got, ...]      *)
EXTENDS Contours
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, w
tvars == <<tid, pos, ok, w, pars, ranges, files, cls, ready, pic>>
Tr == Traces[tid]
Ev == Tr[pos]
Fish == INSTANCE FisherAlgebra WITH heap <- 0, op <- 0
None == [p \in {} |-> <<>>]
NoPic == [panels |-> <<>>, legend |-> <<>>]
TraceInit == /\ tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ w = <<>>
             /\ pars = <<>> /\ ranges = None /\ files = None /\ cls = <<>> /\ ready = {} /\ pic = NoPic

\* marks as read off a figure give the confidence levels they may stand for
SameMark(m, g) == /\ g.kind = m.kind /\ g.matrix = m.matrix /\ g.alpha = m.alpha /\ m.cl \in SetOf(g.cls) /\ g.outline
                  /\ \A f \in DOMAIN m \ {"cl"} : g[f] = m[f]
SamePanel(p, g) == /\ g.on = p.on /\ Len(g.marks) = Len(p.marks) /\ \A i \in DOMAIN p.marks : SameMark(p.marks[i], g.marks[i])
                   /\ (p.on => /\ p.x \in SetOf(g.x) /\ (p.y # "" => p.y \in SetOf(g.y))
                               /\ p.xlabel = g.xlabel /\ p.ylabel = g.ylabel /\ g.ticks)
PictureClause(want, got) ==
    IF Len(got.panels) # Len(want.panels) THEN "number of panels"
    ELSE LET bad == {<<i, j>> \in (DOMAIN want.panels) \X (DOMAIN want.panels) : ~SamePanel(want.panels[i][j], got.panels[i][j])} IN
         IF bad # {} THEN "panels drawn"
         ELSE IF got.legend # want.legend THEN "legend" ELSE ""
RangesOf(g) == [p \in DOMAIN g |-> g[p]]
Clause(e) ==
    CASE e.op = "world" -> ""
      [] e.op = "choose" -> IF e.got # pars' THEN "parameters to plot" ELSE ""
      [] e.op = "config" -> ""
      [] e.op \in {"compute", "load"} ->
            IF e.op = "load" /\ e.out # (IF e.file \in DOMAIN files THEN "ok" ELSE "FileNotFoundError") THEN "file of ranges"
            ELSE IF RangesOf(e.got) # ranges' THEN "ranges" ELSE ""
      [] e.op = "save" -> IF RangesOf(e.got) # files'[e.file] THEN "ranges written" ELSE ""
      [] e.op = "draw" -> PictureClause(pic', e.got)
      [] e.op = "tri" ->
            IF RangesOf(e.ranges) # ranges' THEN "ranges"
            ELSE IF e.saved # e.save THEN "plot saved"
            ELSE IF (e.written # <<>>) # e.write \/ (e.write /\ RangesOf(e.written[1]) # ranges') THEN "ranges written"
            ELSE PictureClause(pic', e.got)
      [] e.op = "heat" -> IF e.got # Heat(w, e.matrix) THEN "correlations drawn" ELSE ""
      [] e.op = "labels" -> IF Len(e.got) # Len(e.names) \/ ~NoDup(e.got) THEN "labels not distinct"
                            ELSE IF \E i \in DOMAIN e.names : e.names[i] \in DOMAIN TeX /\ e.got[i] # Math(TeX[e.names[i]]) THEN "labels" ELSE ""
      [] OTHER -> "unknown event"
Step(e) ==
    CASE e.op = "world" -> /\ w' = [fid |-> e.fid, mats |-> [i \in DOMAIN e.mats |->
                                     [words |-> e.mats[i].words, sig |-> e.mats[i].sig,
                                      rho |-> TLCEval([pq \in (DOMAIN e.fid) \X (DOMAIN e.fid) |-> e.mats[i].rho[pq[1]][pq[2]]])]]]
                           /\ pars' = e.pars /\ cls' = e.cls /\ ranges' = None /\ ready' = SetOf(e.pars) /\ UNCHANGED <<files, pic>>
      [] e.op = "choose" -> Choose(w, e.pars) /\ UNCHANGED w
      [] e.op = "config" -> Configure(e.cls) /\ UNCHANGED w
      [] e.op = "compute" -> Compute(w) /\ UNCHANGED w
      [] e.op = "file" -> files' = [x \in DOMAIN files \cup {e.file} |-> IF x = e.file THEN RangesOf(e.holds) ELSE files[x]]
                          /\ UNCHANGED <<w, pars, ranges, cls, ready, pic>>
      [] e.op = "load" -> Load(e.file) /\ UNCHANGED w
      [] e.op = "save" -> Save(e.file, e.over) /\ UNCHANGED w
      [] e.op = "draw" -> Draw(w, e.order) /\ UNCHANGED w
      [] e.op = "tri" -> /\ ranges' = IF e.file = "none" THEN Ranges(w, pars) ELSE files[e.file]
                         /\ pic' = Picture(w, pars, All(w), cls)
                         /\ UNCHANGED <<w, pars, files, cls, ready>>
      [] OTHER -> UNCHANGED <<w, pars, ranges, files, cls, ready, pic>>

\* results of several cosmologies: the parameters outside a cosmology are fixed, nuisances marginalised or fixed
M(r) == [name |-> r.name, cosmo |-> SetOf(r.cosmo), nuis |-> SetOf(r.nuis),
         m |-> TLCEval([pq \in SetOf(r.names) \X SetOf(r.names) |-> r.m[PosOf(pq[1], r.names)][PosOf(pq[2], r.names)]])]
Of(F, ps, marg) == Fish!Keep(F, SetOf(ps) \cup (IF marg THEN F.nuis ELSE {}))
RECURSIVE Total(_)
Total(fs) == IF Len(fs) = 1 THEN fs[1] ELSE LET h == Total(SubSeq(fs, 1, Len(fs) - 1)) IN [Fish!Add(h, fs[Len(fs)]) EXCEPT !.name = h.name \o "+" \o fs[Len(fs)].name]
Bases(e, c) == [i \in DOMAIN e.mats |-> Of(M(e.mats[i]), c.pars, e.marg)]
Named(e, c) == IF e.sums = <<>> THEN SetOf(Bases(e, c))
               ELSE {Total([i \in DOMAIN e.sums[k] |-> CHOOSE F \in SetOf(Bases(e, c)) : F.name = e.sums[k][i]]) : k \in DOMAIN e.sums}
Present(e) == SelectSeq(e.cosmos, LAMBDA c : c.present)
Refused(e) == \E i \in DOMAIN Present(e) : ~(SetOf(Present(e)[i].pars) \subseteq SetOf(e.free))
\* correlations times the errors
Covar(F, p, q) == IF p = q THEN Fish!MargErr2(F, p)
                  ELSE LET m == Fish!Two(F, p, q) IN
                       RDiv(RNeg(m[<<p, q>>]), RSub(RMul(m[<<p, p>>], m[<<q, q>>]), RMul(m[<<p, q>>], m[<<p, q>>])))
RowClause(F, c, e, r) ==
    IF \E p \in SetOf(c.pars) : r.err[p] # Fish!MargErr2(F, p) THEN "errors"
    ELSE IF \E p \in SetOf(c.pars) : r.rel[p] # (IF e.fid[p] = R(0) THEN r.err[p] ELSE RDiv(r.err[p], RMul(e.fid[p], e.fid[p]))) THEN "relative errors"
    ELSE IF {"w0", "wa"} \subseteq SetOf(c.pars) /\ r.err["FoM"] # Fish!Fom2(F) THEN "figure of merit"
    ELSE IF {"w0", "wa"} \subseteq SetOf(c.pars) /\ r.rel["FoM"] # Fish!Fom2(F) THEN "relative figure of merit"
    ELSE IF \E p, q \in SetOf(c.pars) : r.cov[p][q] # Covar(F, p, q) THEN "correlations" ELSE ""
CosmoClause(e, c, g) ==
    LET Fs == Named(e, c) IN
    IF SetOf(g.names) # {F.name : F \in Fs} THEN "matrices of the cosmology"
    ELSE LET bad == {F \in Fs : RowClause(F, c, e, g.rows[F.name]) # ""} IN
         IF bad # {} THEN LET F == CHOOSE F \in bad : TRUE IN RowClause(F, c, e, g.rows[F.name])
         ELSE IF ~e.plots THEN ""
         ELSE IF g.shown # (IF c.shown = <<>> THEN Sorted(SetOf(c.pars)) ELSE c.shown) THEN "parameters plotted"
         ELSE IF g.ranges.file # g.ranges.plot THEN "ranges written"
         ELSE IF e.limits # None /\ g.ranges.plot # e.limits THEN "ranges of the file"
         ELSE IF \E F \in Fs : \E p \in SetOf(g.shown) : g.drawn[F.name][p] # Fish!MargErr2(F, p) THEN "Gaussians drawn"
         ELSE IF ~g.files THEN "files of the plots" ELSE ""
ResultsClause(e) ==
    IF Refused(e) THEN IF e.out = "ok" THEN "missing parameters accepted" ELSE ""
    ELSE IF e.out # "ok" THEN "results refused"
    ELSE IF DOMAIN e.got # {c.name : c \in SetOf(Present(e))} THEN "cosmologies"
    ELSE LET bad == {c \in SetOf(Present(e)) : CosmoClause(e, c, e.got[c.name]) # ""} IN
         IF bad # {} THEN LET c == CHOOSE c \in bad : TRUE IN CosmoClause(e, c, e.got[c.name])
         ELSE IF e.back # e.kept THEN "results read back" ELSE ""
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ Step(Ev)
    /\ LET c == IF Ev.op = "results" THEN ResultsClause(Ev) ELSE IF Ev.op = "file" THEN "" ELSE Clause(Ev) IN
        IF c = "" THEN ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
