---------------------------- MODULE ParamsTrace ----------------------------
(* Accepts or rejects recorded histories of the real parameter collection. *)
EXTENDS Params
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<vars, tid, pos, ok>>

Tr == Traces[tid]
Ev == Tr[pos]

TraceInit ==
    /\ tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE
    /\ par = Tr[1].par /\ disps = Tr[1].disps /\ flat = Tr[1].flat
    /\ cur = [p \in DOMAIN Tr[1].par |-> Fid(p)]
    /\ moved = {} /\ dirty = FALSE /\ act = [op |-> "init"]

\* clause that fails, or "" -- evaluated on the state the specification moves to
ViewsOk(e) == /\ SetOf(e.free) = FreeNames /\ SetOf(e.cosmo) = CosmoNames
              /\ SetOf(e.nuis) = Names \ CosmoNames
              /\ \A x \in DOMAIN e.byprobe : SetOf(e.byprobe[x]) = FreeForProbe(x)

Clause(e) ==
    CASE e.op = "setup" -> IF e.cur # cur THEN "a fresh collection is not at its fiducial" ELSE ""
      [] e.op = "vary" ->
            IF act'.out # e.out THEN "outcome of the variation: specification says " \o act'.out
            ELSE IF ~dirty' /\ cur' # e.cur THEN "values after the variation"
            ELSE ""
      [] e.op = "restore" -> IF cur' # e.cur THEN "values after returning to the fiducial" ELSE ""
      [] e.op = "reload" -> IF e.par # par' THEN "definitions after write and read back"
                            ELSE IF e.cur # cur' THEN "values after write and read back"
                            ELSE IF e.disps # Asc(disps) \/ e.flat # flat THEN "displacements after read back" ELSE ""
      [] e.op = "views" -> IF ~ViewsOk(e) THEN "partition into free / cosmological / nuisance parameters" ELSE ""
      [] e.op = "stem" -> IF e.values # [i \in 1..(2 * Len(disps) + 1) |->
                              LET k == i - Len(disps) - 1 IN IF k = 0 THEN Fid(e.p) ELSE Displaced(e.p, k)]
                          THEN "stencil abscissae" ELSE ""
      [] e.op = "compute" ->   \* what one job of a variation loop was given to compute with
            IF ~par[e.p].free THEN "a fixed parameter was varied"
            ELSE IF e.seen # (IF e.k = 0 THEN [p \in Names |-> Fid(p)]
                              ELSE IF flat /\ e.p \in Coupled
                              THEN [p \in Names |-> IF p = e.p THEN Displaced(e.p, e.k)
                                                    ELSE IF p = Partner(e.p) THEN One - Displaced(e.p, e.k) ELSE Fid(p)]
                              ELSE [p \in Names |-> IF p = e.p THEN Displaced(e.p, e.k) ELSE Fid(p)])
            THEN "values a variation was computed with" ELSE ""
      [] e.op = "loopend" -> IF SetOf(e.done) # Steps \cup {0} THEN "steps a variation loop produced"
                             ELSE IF e.cur # cur THEN "values after a variation loop" ELSE ""
      [] OTHER -> "unknown event"

SpecStep(e) ==
    CASE e.op = "vary" -> Vary(e.p, e.k)
      [] e.op = "restore" -> Restore
      [] e.op = "reload" -> /\ LET keep == IF e.only THEN {p \in Names : par[p].cosmo} ELSE Names IN
                                /\ par' = [p \in keep |-> par[p]] /\ cur' = [p \in keep |-> cur[p]]
                                /\ moved' = moved \cap keep
                            /\ act' = [op |-> "reload"] /\ UNCHANGED <<disps, flat, dirty>>
      [] OTHER -> UNCHANGED vars

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ SpecStep(Ev)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ ok' = TRUE /\ pos' = pos + 1
                       /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
