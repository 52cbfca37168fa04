-------------------------- MODULE ProbeKeysTrace --------------------------
EXTENDS ProbeKeys
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<kvars, tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]

TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ d = <<>> /\ transposing = Tr[1].tr /\ last = <<>>

SpecStep(e) ==
    /\ UNCHANGED <<transposing, last>>
    /\ CASE e.op = "new" -> d' = PutAll(<<>>, e.items)
         [] e.op = "put" -> DoPut(e.a, e.b, e.id)
         [] e.op = "update" -> DoUpdate(e.items)
         [] e.op = "del" -> (IF Has(d, e.a, e.b) THEN DoDel(e.a, e.b) ELSE UNCHANGED d)
         [] OTHER -> UNCHANGED d

Obs(it) == Has(d, it[1], it[2]) /\ Get(d, it[1], it[2]) = [id |-> it[3], t |-> it[4]]

Clause(e) ==
    CASE e.op \in {"new", "update"} -> IF e.out = "ok" THEN "" ELSE "storing refused"
      [] e.op = "put" -> IF e.out # "ok" THEN "storing refused" ELSE ""
      [] e.op = "del" -> IF (e.out = "ok") # Has(d, e.a, e.b) THEN "deletion" ELSE ""
      [] e.op = "get" -> IF (e.out = "ok") # Has(d, e.a, e.b) THEN "pair answered / not answered"
                         ELSE IF e.out = "ok" /\ ~Obs(<<e.a, e.b, e.id, e.t>>) THEN "another quantity, or the wrong way round" ELSE ""
      [] e.op = "in" -> IF e.r # Has(d, e.a, e.b) THEN "membership" ELSE ""
      [] e.op = "all" ->
            IF e.n # Cardinality(DOMAIN d) THEN "number of entries"
            ELSE IF Len(e.items) # Cardinality(DOMAIN d) THEN "number of items listed"
            ELSE IF {Canon(it[1], it[2]) : it \in SetOf(e.items)} # DOMAIN d THEN "pairs listed"
            ELSE IF \E it \in SetOf(e.items) : ~Obs(it) THEN "item listed with another quantity" ELSE ""
      \* a spelling, converted
      [] e.op = "conv" ->
            IF ~IsPair(e.raw) THEN (IF e.made THEN "a key that names no pair of probes was accepted" ELSE "")
            ELSE IF e.out # "ok" THEN "a valid spelling was refused"
            ELSE LET ab == PairOf(e.raw) IN
                 IF e.kind # KindOf(e.raw) THEN "kind of spelling"
                 ELSE IF \E k \in Kinds : e.to[k] # Spell(k, ab[1], ab[2]) THEN "conversion to another spelling"
                 ELSE IF e.rev # Spell(e.kind, ab[2], ab[1]) THEN "reversed pair"
                 ELSE IF e.parts # <<NameOf(e.kind, ab[1]), NameOf(e.kind, ab[2])>> THEN "parts of the pair"
                 ELSE IF e.auto # (ab[1] = ab[2]) THEN "auto-correlation"
                 ELSE IF e.fisher # FisherSpell(ab[1], ab[2]) THEN "Fisher spelling"
                 ELSE ""
      [] e.op = "fisher" ->
            IF ~IsFisherPair(e.raw) THEN (IF e.out = "ok" THEN "a Fisher spelling that names no pair of probes was accepted" ELSE "")
            ELSE IF e.out # "ok" THEN "a valid Fisher spelling was refused"
            ELSE IF e.to # Spell("alias", FisherPairOf(e.raw)[1], FisherPairOf(e.raw)[2]) THEN "pair read from a Fisher spelling" ELSE ""
      [] e.op = "same" -> IF e.eq # (PairOf(e.x) = PairOf(e.y)) THEN "equality of two spellings"
                          ELSE IF e.eq /\ ~e.hash THEN "equal keys with different hashes" ELSE ""
      [] e.op = "probe" ->
            IF ~IsProbe(e.raw) THEN (IF e.made THEN "a name of no probe was accepted" ELSE "")
            ELSE IF e.out # "ok" THEN "a valid probe name was refused"
            ELSE IF \E k \in Kinds : e.to[k] # NameOf(k, ProbeOf(e.raw)) THEN "conversion of a probe name" ELSE ""
      [] e.op = "sameprobe" -> IF e.eq # (ProbeOf(e.x) = ProbeOf(e.y)) THEN "equality of two probe names" ELSE ""
      [] OTHER -> "unknown event"

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ SpecStep(Ev) /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ UNCHANGED kvars /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
