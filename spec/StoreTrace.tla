----------------------------- MODULE StoreTrace -----------------------------
(* Recorded histories of saves and loads over shared files.  e.bytes lists the files whose bytes changed, e.open the number of files left open. *)
EXTENDS Store
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, files, exist
tvars == <<tid, pos, ok, files, exist>>
Tr == Traces[tid]
Ev == Tr[pos]
FileIds == 1..4
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ files = [f \in FileIds |-> {}] /\ exist = {}
Parts(e) == SetOf(e.parts)
Want(e) == SetOf(e.want)
\* (a weight function may have no arrays: one read from the place of another kind of object may be such a one)
\* the weight functions of a coefficient are read when it has a kernel; a collection is all that it wrote
\* (a coefficient of a collection is not at the root of the collection)
There(e) == Readable(IF e.kind = "cl" THEN {c \in files[e.f] : c.fam = "cls"} ELSE files[e.f], e.r, Want(e))
May(e) == Want(e) \cup
          CASE e.kind = "cl" /\ There(e) ->
                 IF (CHOOSE c \in At(files[e.f], e.r) : c.slot \in Want(e)).val["kernel"] # "none" THEN SetOf(e.weights) ELSE {}
            [] e.kind = "clcoll" -> Slots({c \in At(files[e.f], e.r) : c.fam = "clcoll"})
            [] OTHER -> {}
Quiet(e) == e.bytes = <<>>
Only(e, f) == SetOf(e.bytes) \subseteq {f}
Enabled(e) == e.op = "save" => Proper(files[e.f], e.r, Parts(e))
Clause(e) ==
    IF e.open # 0 THEN "a file is left open" ELSE
    CASE e.op = "save" ->
           IF Taken(files[e.f], e.r, Parts(e)) /\ e.out = "ok" THEN "saved over another object"
           ELSE IF ~Taken(files[e.f], e.r, Parts(e)) /\ e.out # "ok" THEN "cannot be saved"
           ELSE IF ~Only(e, e.f) THEN "another file changed"
           ELSE IF e.exists # "yes" THEN "no file" ELSE ""
      [] e.op = "load" ->
           IF ~Quiet(e) THEN "a load changed a file"
           ELSE IF e.f \notin exist \/ ~There(e)
                THEN (IF e.out = "ok" /\ ~(e.kind = "weight" /\ At(files[e.f], e.r) # {}) THEN "loaded from nowhere" ELSE "")
           ELSE IF e.out # "ok" THEN "cannot be loaded"
           ELSE IF Parts(e) # Loaded(files[e.f], e.r, May(e)) THEN "loaded object differs from the saved one" ELSE ""
      [] e.op = "pick" ->   \* one coefficient, with its weight functions, out of a stored collection
           LET in == Slots({c \in At(files[e.f], e.r) : c.fam = "clcoll"})
               v == (CHOOSE c \in At(files[e.f], e.r) : c.slot = e.slot).val
               ws == IF v["kernel"] = "none" THEN {} ELSE SetOf(e.weights) \cap in IN
           IF ~Quiet(e) THEN "a load changed a file"
           ELSE IF e.slot \notin in THEN (IF e.out = "ok" THEN "loaded from nowhere" ELSE "")
           ELSE IF e.out # "ok" THEN "cannot be loaded"
           ELSE IF Parts(e) # Loaded(files[e.f], e.r, {e.slot} \cup ws) THEN "a coefficient of a collection" ELSE ""
      [] e.op = "all" ->    \* the densities of a file, by name
           LET cs == {c \in files[e.f] : c.slot = "density"} IN
           IF ~Quiet(e) THEN "a load changed a file"
           ELSE IF e.out # "ok" THEN "cannot be loaded"
           ELSE IF {<<x[1], x[2]>> : x \in SetOf(e.got)} # {<<c.root, c.val>> : c \in cs} THEN "the densities of a file" ELSE ""
      [] e.op = "set" -> IF ~Quiet(e) THEN "a change of an object in memory changed a file" ELSE ""
      [] e.op = "open" ->
           IF (e.out = "ok") # Opens(e.f \in exist, e.mode) THEN (IF e.out = "ok" THEN "mode does not protect the file" ELSE "cannot be opened")
           ELSE IF ~Only(e, e.f) \/ (e.mode = "r" /\ ~Quiet(e)) \/ (e.out # "ok" /\ ~Quiet(e)) THEN "opening changed a file"
           ELSE IF e.exists # (IF e.f \in exist \/ e.out = "ok" THEN "yes" ELSE "no") THEN "opening removed or created a file" ELSE ""
      [] e.op = "eq" ->
           LET s == Proj(e.kind, e.l) = Proj(e.kind, e.r2) /\ (e.kind = "cosmology" => e.lp = e.rp) IN
           IF e.out \notin {"true", "false"} THEN "comparison failed"
           ELSE IF (e.out = "true") # s THEN "comparison" ELSE ""
      [] e.op = "file" ->   \* objects with a file of their own
           IF e.out # "ok" THEN "cannot be saved or loaded"
           ELSE IF e.got # e.val THEN "loaded object differs from the saved one" ELSE ""
      [] OTHER -> ""
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == IF ~Enabled(Ev) THEN "improper" ELSE Clause(Ev) IN
        IF c = "" THEN /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
                       /\ files' = IF Ev.op = "save" THEN [files EXCEPT ![Ev.f] = Saved(@, Ev.r, Parts(Ev))] ELSE files
                       /\ exist' = IF Ev.op = "save" \/ (Ev.op = "open" /\ Ev.out = "ok") THEN exist \cup {Ev.f} ELSE exist
        ELSE ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c) /\ UNCHANGED <<files, exist>>
    /\ tid' = tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
