----------------------------- MODULE SolverTrace -----------------------------
(* Recorded power-spectrum jobs of one run:                                     *)
(*   setup   [P, flat, code, ref, last, limit, n, nk, kmax, per, zs]            *)
(*   job     [dvar, e]                                                          *)
(*   tune    [q, zs, linear]        CAMB is asked for sigma8                    *)
(*   solve   [q, zs, kmax, per, kind, units, ids]   spectra of a piece (CAMB)   *)
(*   asked   [asked, rest, kmax, zmax]           request to CLASS               *)
(*   read    [lin, non]             spectra as CLASS has them                   *)
(*   stored  [out, there, ...]      what the job left                           *)
(* Redshifts and wavenumbers are given by their position in the grid (0 for     *)
(* today), spectra by identifiers.                                              *)
EXTENDS Solver
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, cur, lin, non, asked, rest
tvars == <<tid, pos, ok, cur, lin, non, asked, rest>>
Tr == Traces[tid]
Ev == Tr[pos]
Setup == Tr[1]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ cur = <<>> /\ lin = <<>> /\ non = <<>> /\ asked = <<>> /\ rest = <<>>
Upto(n) == [i \in 1..n |-> i]
All(s, f) == Concat([i \in DOMAIN s |-> s[i][f]])

Request(q) == IF q.rest # Setup.ref THEN "other settings of the request"
              ELSE IF q.asked # OfCAMB(cur) THEN "cosmology of the request" ELSE ""
Then(a, b) == IF a # "" THEN a ELSE b
Clause(e) ==
    CASE e.op \in {"setup", "job"} -> ""
      [] e.op = "tune" -> Then(Request(e.q), IF e.zs # <<0>> THEN "redshift of sigma8" ELSE IF ~e.linear THEN "sigma8 not linear" ELSE "")
      [] e.op = "solve" ->
            Then(Request(e.q),
                 IF e.q.amp # Setup.last THEN "spectra of another sigma8"
                 ELSE IF Len(e.zs) > Setup.limit THEN "too many redshifts at a time"
                 ELSE IF e.kmax # Setup.kmax \/ e.per # Setup.per THEN "wavenumbers asked for"
                 ELSE IF e.units # "Mpc" THEN "units of the spectra"
                 ELSE IF e.kind = "non" /\ ~e.nonlinear THEN "linear spectra instead of non-linear ones" ELSE "")
      [] e.op = "asked" ->
            IF e.asked # OfCLASS(cur) THEN "cosmology of the request"
            ELSE IF e.kmax # Setup.kmax \/ e.zmax # Setup.n THEN "range asked for"
            ELSE IF rest # <<>> /\ rest # e.rest THEN "other settings of the request" ELSE ""
      [] e.op = "read" -> IF asked # OfCLASS(cur) THEN "spectra of another cosmology" ELSE ""
      [] e.op = "stored" ->
            IF ~Accepted(Setup.P, cur, Setup.flat) THEN IF e.out = "ok" \/ e.there THEN "inconsistent cosmology accepted" ELSE ""
            ELSE IF e.out # "ok" \/ ~e.there THEN "no spectrum"
            ELSE IF e.current # cur \/ e.fiducial # Setup.P \/ e.flat # Setup.flat THEN "cosmology stored"
            ELSE IF e.z # Upto(Setup.n) \/ e.z2 # Upto(Setup.n) \/ e.k # Upto(Setup.nk) THEN "grid stored"
            ELSE IF All(lin, "zs") # Upto(Setup.n) \/ All(non, "zs") # Upto(Setup.n) THEN "redshifts asked for"
            ELSE IF e.lin # All(lin, "ids") THEN "linear spectra stored"
            ELSE IF e.non # All(non, "ids") THEN "non-linear spectra stored"
            ELSE IF e.growth # GrowthSq(e.lin) THEN "growth stored"
            ELSE IF e.code # Setup.code \/ ~e.transfer THEN "solver stored"
            ELSE IF Simple(cur) /\ \E i \in DOMAIN e.rate : e.rate[i] # Square(cur, Setup.zs[i]) THEN "expansion rate stored"
            ELSE ""
      [] OTHER -> "unknown event"

TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN
           /\ ok' = TRUE /\ pos' = pos + 1
           /\ cur' = IF Ev.op = "job" THEN Current(Setup.P, Setup.flat, Ev.dvar, Ev.e) ELSE cur
           /\ lin' = CASE Ev.op = "job" -> <<>>
                       [] Ev.op = "read" -> <<[zs |-> Upto(Setup.n), ids |-> Ev.lin]>>
                       [] Ev.op = "solve" /\ Ev.kind = "lin" -> Append(lin, [zs |-> Ev.zs, ids |-> Ev.ids])
                       [] OTHER -> lin
           /\ non' = CASE Ev.op = "job" -> <<>>
                       [] Ev.op = "read" -> <<[zs |-> Upto(Setup.n), ids |-> Ev.non]>>
                       [] Ev.op = "solve" /\ Ev.kind = "non" -> Append(non, [zs |-> Ev.zs, ids |-> Ev.ids])
                       [] OTHER -> non
           /\ asked' = CASE Ev.op = "job" -> <<>> [] Ev.op = "asked" -> Ev.asked [] OTHER -> asked
           /\ rest' = IF Ev.op = "asked" THEN Ev.rest ELSE rest
           /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c) /\ UNCHANGED <<cur, lin, non, asked, rest>>
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
