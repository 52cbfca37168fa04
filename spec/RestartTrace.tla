---------------------------- MODULE RestartTrace ----------------------------
EXTENDS Restart
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
TProducts == <<>>
VARIABLES tid, pos, ok, have
tvars == <<tid, pos, ok, have, rvars>>
Tr == Traces[tid]
Ev == Tr[pos]
All == SetOf(Tr[1].products)
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ have = {} /\ RInit
Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "attempt" ->
            LET after == SetOf(e.after)
                comp == SetOf(e.computed) IN
            IF e.end \notin {"ok", "killed"} THEN "the forecast could not be started again: " \o e.end
            ELSE IF comp \cap have # {} THEN "computed again although complete: " \o (CHOOSE p \in comp \cap have : TRUE)
            ELSE IF ~NoDup(e.computed) THEN "computed twice in one attempt"
            ELSE IF ~(have \subseteq after) THEN "lost or damaged: " \o (CHOOSE p \in have \ after : TRUE)
            ELSE IF e.end = "ok" /\ after # All THEN "not the product of an uninterrupted run: " \o (CHOOSE p \in All \ after : TRUE)
            ELSE IF e.end = "ok" /\ comp # All \ (have \cup SetOf(Tr[1].untracked))
                 THEN "taken for complete although it was not, or unknown: " \o ToString((All \ (have \cup comp \cup SetOf(Tr[1].untracked))) \cup (comp \ All))
            ELSE ""
      [] OTHER -> "unknown event " \o e.op
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ have' = (IF Ev.op = "attempt" THEN SetOf(Ev.after) ELSE have)
                       /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED have /\ Reject(tid, pos, c)
    /\ UNCHANGED <<tid, rvars>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
