---------------------------- MODULE OverwriteTrace ----------------------------
(* Recorded writes over directories of results: e.new is what was to be written, e.after what the directory holds afterwards. *)
EXTENDS Overwrite
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, dirs
tvars == <<tid, pos, ok, dirs>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ dirs = <<>>
Dir(d) == IF d \in DOMAIN dirs THEN dirs[d] ELSE Empty
Dict(x) == IF x = <<>> THEN Empty ELSE x
Clause(e) ==
    CASE e.op = "write" ->
           LET d == Dir(e.dir)
               new == Dict(e.new)
               r == Refused(d, new, e.policy)
               w == Written(d, new, e.policy) IN
           IF r /\ e.out = "ok" /\ ~e.silent THEN "not refused"
           ELSE IF ~r /\ e.out # "ok" THEN "cannot be written"
           ELSE IF Dict(e.after) = w THEN ""
           ELSE IF \E x \in DOMAIN d : x \notin DOMAIN Dict(e.after) \/ (Dict(e.after)[x] # d[x] /\ w[x] = d[x]) THEN "something that was there was lost or changed"
           ELSE IF \E x \in DOMAIN Dict(e.after) : x \notin DOMAIN w THEN "something stays or appears that should not"
           ELSE "not what was to be written"
      [] e.op = "remove" -> IF e.name \notin DOMAIN Dir(e.dir) THEN "machinery" ELSE ""
      [] OTHER -> "unknown"
After(e) == IF e.op = "write" THEN Written(Dir(e.dir), Dict(e.new), e.policy)
            ELSE [x \in DOMAIN Dir(e.dir) \ {e.name} |-> Dir(e.dir)[x]]
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
                       /\ dirs' = Upd(dirs, [x \in {Ev.dir} |-> After(Ev)])
        ELSE ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c) /\ UNCHANGED dirs
    /\ tid' = tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
