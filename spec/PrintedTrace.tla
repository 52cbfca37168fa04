----------------------------- MODULE PrintedTrace -----------------------------
(* Recorded tables:                                                             *)
(*   table [cols, rows, by, head, got, bins, saved]    a table of rows          *)
(*   row   [row, got]                                  one row with its gain    *)
(*   name  [name, plain, alias, got]                   symbols of a matrix      *)
(*   probe [words, tex, again]                         and back                 *)
(*   par   [name, tex, back]   bias [kind, i, got]     symbols of parameters    *)
EXTENDS Printed
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE
Clause(e) ==
    CASE e.op = "table" ->
            IF \E k \in DOMAIN e.rows : e.rows[k].plain # PlainName(e.rows[k].name) THEN "names of the request"
            ELSE IF e.head # MapSeq(Title, e.cols) THEN "columns printed"
            ELSE IF Len(e.got) # Len(e.rows) THEN "rows printed"
            ELSE IF \E k \in DOMAIN e.rows : e.got[k] # Line(e.cols, e.rows[k]) THEN "cells printed"
            ELSE IF e.by /\ e.bins # MapSeq(LAMBDA r : r.bins, e.rows) THEN "groups of rows"
            ELSE IF ~e.saved THEN "text of the file" ELSE ""
      [] e.op = "row" -> IF e.plain # PlainName(e.row.name) THEN "name of the request" ELSE IF e.got # RowCells(e.row) THEN "row printed" ELSE ""
      [] e.op = "name" -> IF e.plain # PlainName(e.name) THEN "name of the request" ELSE IF e.got # Name(e.name, e.alias) THEN "symbols of a matrix" ELSE ""
      [] e.op = "probe" -> IF e.tex # Join(MapSeq(LAMBDA p : Symbol(p, FALSE), e.words), "+") THEN "symbols of probes"
                           ELSE IF e.again # e.tex THEN "probes read back" ELSE ""
      [] e.op = "par" -> IF e.tex # Parameters[e.name] THEN "symbol of a parameter" ELSE IF e.back # e.name THEN "parameter read back" ELSE ""
      [] e.op = "pars" -> IF e.got # MapSeq(LAMBDA p : IF e.dollar THEN "$" \o Parameters[p] \o "$" ELSE Parameters[p], e.names) THEN "symbols of parameters" ELSE ""
      [] e.op = "bias" -> IF e.got # Bias(e.kind, e.i) THEN "symbol of a bias" ELSE ""
      [] OTHER -> "unknown event"
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
