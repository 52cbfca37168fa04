----------------------------- MODULE ImportTrace -----------------------------
(* Recorded imports:                                                            *)
(*   setup   [P, flat]                                                          *)
(*   folder  [files: of all tables (<<>>: fiducial), jobs: directories made]    *)
(*   pk      [file, tab, job, current, fiducial, got]     one converted table   *)
(*   after   [current]                parameters after the import               *)
(*   cl      [file, pairs, rows, ls, same, job, keys, got, gotls]               *)
(*   der     [par, pairs, rows, same, got]                derivatives           *)
(*   refuse  [sizes, out]             tables of different multipoles            *)
(*   fisher  [cols, rows, title, asked, out, names, m, name, cosmo, nuis]       *)
(*   known   [names, left]            parameters kept of a set                  *)
(*   errs    [names, m, marg, unmarg]                    squared errors         *)
(*   delta   [errs, mean, median]     of one parameter and kind                 *)
EXTENDS Import
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok, setup
tvars == <<tid, pos, ok, setup>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE /\ setup = <<>>
Mine(e) == Job(e.file)
Clause(e) ==
    CASE e.op = "setup" -> ""
      [] e.op = "folder" -> IF SetOf(e.jobs) # {Job(e.files[i]) : i \in DOMAIN e.files} \/ Len(e.jobs) # Len(e.files) THEN "cosmologies imported" ELSE ""
      [] e.op = "pk" ->
            LET c == Pars(setup.P, setup.flat, Mine(e))
                s == Spectrum(e.tab, c.h) IN
            IF e.job # Mine(e) THEN "place of the spectrum"
            ELSE IF e.current # c \/ e.fiducial # setup.P \/ e.flat # setup.flat THEN "cosmology of the spectrum"
            ELSE IF e.got.z # s.z \/ e.z # s.z THEN "redshifts"
            ELSE IF e.got.k # s.k THEN "wavenumbers"
            ELSE IF e.got.lin # s.lin THEN "linear spectrum"
            ELSE IF e.got.non # s.non THEN "non-linear spectrum" ELSE ""
      [] e.op = "after" -> IF e.current # setup.P THEN "parameters left displaced" ELSE ""
      [] e.op = "cl" ->
            IF e.job # Mine(e) THEN "place of the angular spectra"
            ELSE IF e.gotls # e.ls THEN "multipoles"
            ELSE IF e.got # [i \in DOMAIN e.rows |-> Columns(e.pairs, e.rows[i], e.same)] THEN "angular spectra" ELSE ""
      [] e.op = "der" ->
            IF e.got # [i \in DOMAIN e.rows |-> Columns(e.pairs, e.rows[i], e.same)] THEN "derivatives" ELSE ""
      [] e.op = "ders" -> IF SetOf(e.got) # {Theirs[e.pars[i]] : i \in DOMAIN e.pars} THEN "parameters of the derivatives" ELSE ""
      [] e.op = "refuse" -> IF Cardinality(SetOf(e.sizes)) = 1 THEN IF e.out # "ok" THEN "spectra refused" ELSE ""
                            ELSE IF e.out # "ValueError" THEN "different multipoles accepted" ELSE ""
      [] e.op = "fisher" ->
            LET names == MapSeq(Ours, e.cols)
                m == Read(e.cols, e.rows) IN
            IF e.out # "ok" THEN "matrix refused"
            ELSE IF SetOf(e.names) # SetOf(names) \/ Len(e.names) # Len(names) \/ e.index # e.names THEN "parameters of the matrix"
            ELSE IF \E i, j \in DOMAIN e.names : e.m[i][j] # m[<<e.names[i], e.names[j]>>] THEN "entries of the matrix"
            ELSE IF e.name # (IF e.asked # "none" THEN e.asked ELSE Title(e.title)) THEN "name of the matrix"
            ELSE IF SetOf(e.cosmo) \cap SetOf(e.nuis) # {} \/ SetOf(e.cosmo) \cup SetOf(e.nuis) # SetOf(names)
                    \/ (e.nuispars # SetToSeq({}) /\ SetOf(e.nuis) # SetOf(e.nuispars)) THEN "kinds of the parameters" ELSE ""
      [] e.op = "known" ->
            IF e.out # "ok" THEN "check of the parameters failed"
            ELSE IF SetOf(e.left) # {n \in SetOf(e.names) : \E t \in DOMAIN Theirs : Theirs[t] = n} THEN "parameters kept" ELSE ""
      [] e.op = "errs" ->
            LET F == [name |-> "", cosmo |-> SetOf(e.names), nuis |-> {},
                      m |-> TLCEval([pq \in SetOf(e.names) \X SetOf(e.names) |-> e.m[PosOf(pq[1], e.names)][PosOf(pq[2], e.names)]])] IN
            IF \E i \in DOMAIN e.names : e.marg[i] # Fish!MargErr2(F, e.names[i]) THEN "marginalised errors"
            ELSE IF \E i \in DOMAIN e.names : e.unmarg[i] # Fish!Err2(F, e.names[i]) THEN "unmarginalised errors" ELSE ""
      [] e.op = "delta" ->
            IF \E i \in DOMAIN e.errs : e.mean[i] # Delta(e.errs[i], Mean(e.errs)) THEN "difference from the mean"
            ELSE IF \E i \in DOMAIN e.errs : e.median[i] # Delta(e.errs[i], Median(e.errs)) THEN "difference from the median" ELSE ""
      [] e.op = "codes" -> IF e.out # "ok" THEN IF e.good THEN "matrices of the codes refused" ELSE ""
                           ELSE IF ~e.good THEN "unknown code accepted"
                           ELSE IF e.got # e.want THEN "matrices of the codes" ELSE ""
      [] OTHER -> "unknown event"
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN
           /\ ok' = TRUE /\ pos' = pos + 1
           /\ setup' = IF Ev.op = "setup" THEN Ev ELSE setup
           /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c) /\ UNCHANGED setup
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
