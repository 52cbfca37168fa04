-------------------------- MODULE OrchestrateTrace --------------------------
(* Recorded multi-runs: a request, what was launched, and how it ended.  The arguments of a launch are those the launched program read. *)
EXTENDS Orchestrate
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, req, todo, used, made
tvars == <<tid, pos, ok, req, todo, used, made>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ req = <<>> /\ todo = {} /\ used = {} /\ made = {}
\* arguments that are not part of the request are free
Same(args, j) == \A k \in DOMAIN j.args : k \in DOMAIN args /\ args[k] = j.args[k]
Match(e) == {j \in todo : Same(e.args, j)}
Diff(e, j) == {k \in DOMAIN j.args : k \notin DOMAIN e.args \/ e.args[k] # j.args[k]}
Nearest(e) == CHOOSE j \in todo : \A k \in todo : Cardinality(Diff(e, j)) <= Cardinality(Diff(e, k))
\* directories are recognised by their names: all that were made, and no others than those made by earlier requests under the same identifiers
Dirs(S) == {d[1] : d \in S}
Listing(e) == /\ Dirs(SetOf(e.created)) \subseteq SetOf(e.listed)
              /\ SetOf(e.listed) \subseteq Dirs({d \in made \cup SetOf(e.created) : d[2] \in used})
Clause(e) ==
    CASE e.op = "request" -> ""
      [] e.op = "launch" ->
           IF todo = {} THEN "launched though nothing is left to launch"
           ELSE IF Match(e) = {} THEN "not as asked for: " \o (CHOOSE k \in Diff(e, Nearest(e)) : TRUE)
           ELSE IF Match(e) \cap Turn(req, todo) = {} THEN "not its turn"
           ELSE IF req.mode = "new" /\ \A j \in Match(e) : ~Named(used, j.base, e.id) THEN "run identifier"
           ELSE IF req.mode \in {"new", "existing"} /\ e.kept # (IF Kept(e.args) THEN "yes" ELSE "no") THEN "variations of the angular coefficients"
           ELSE IF req.mode = "seyfert" /\ e.id \in used THEN "two runs in one directory"
           ELSE ""
      [] e.op = "end" ->
           IF req.mode \in {"new", "existing"} /\ Refused(req) /\ e.out = "ok" THEN "not refused"
           ELSE IF ~(req.mode \in {"new", "existing"} /\ Refused(req)) /\ e.out # "ok" THEN "refused"
           ELSE IF todo # {} THEN "not everything was launched"
           ELSE IF req.mode = "new" /\ req.opts["execution"] # "no" /\ e.out = "ok" /\ ~Listing(e) THEN "list of run directories"
           ELSE ""
      [] e.op = "tree" -> IF SetOf(e.found) = SetOf(e.given) THEN "" ELSE "configuration directory"
      [] OTHER -> "unknown"
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
                       /\ CASE Ev.op = "request" -> req' = Ev.req /\ todo' = Launched(Ev.req) /\ used' = {} /\ made' = made
                            [] Ev.op = "launch" ->
                                 LET J == {j \in Match(Ev) \cap Turn(req, todo) : req.mode # "new" \/ Named(used, j.base, Ev.id)} IN
                                 todo' = todo \ {CHOOSE j \in J : TRUE} /\ used' = used \cup {Ev.id} /\ req' = req /\ made' = made
                            [] OTHER -> UNCHANGED <<req, todo, used>> /\ made' = IF Ev.op = "end" THEN made \cup SetOf(Ev.created) ELSE made
        ELSE ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c) /\ UNCHANGED <<req, todo, used, made>>
    /\ tid' = tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
