----------------------------- MODULE StemTrace -----------------------------
EXTENDS Stem
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, pos, ok
tvars == <<tid, pos, ok>>
Tr == Traces[tid]
Ev == Tr[pos]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ ok = TRUE

Decided(x, y) == \A j \in 0..(Len(x) - 3) \div 2 : ~OnEdge(x, y, 1 + j, Len(x) - j)
\* one derivative of a spectrum: e.elements is a sequence of [y, n, d]
Clause(e) ==
    CASE e.op = "stem" ->
            IF e.out # "ok" THEN "no derivative"
            ELSE IF \E i \in DOMAIN e.elements : LET el == e.elements[i]
                                                     d == Derivative(e.x, el.y) IN Decided(e.x, el.y) /\ <<d.n, d.d>> # <<el.n, el.d>>
            THEN "derivative of an element" ELSE ""
      [] e.op = "other" -> \* the spectrum involves neither the parameter's probe
            IF e.out # "ok" THEN "no derivative" ELSE IF SetOf(e.values) \subseteq {0} THEN "" ELSE "derivative of an independent spectrum is not zero"
      [] e.op = "analytic" -> \* d/db_k = (how many of the two weights are the k-th of the bias's probe) c/b
            IF e.out # "ok" THEN "no analytic derivative"
            ELSE IF \E i \in DOMAIN e.elements : LET el == e.elements[i]
                        m == (IF e.p1 = e.probe /\ el.i = e.k THEN 1 ELSE 0) + (IF e.p2 = e.probe /\ el.j = e.k THEN 1 ELSE 0)
                        d == RDiv(R(m * el.c), [n |-> e.b[1], d |-> e.b[2]]) IN <<d.n, d.d>> # <<el.n, el.d>>
            THEN "analytic derivative of an element" ELSE ""
      [] e.op = "piecewise" -> \* (how many of the two weights are of the bias's probe) / b times Simpson's rule inside the k-th interval
            IF e.model # "piecewise" THEN (IF e.out = "ok" THEN "analytic derivative of an unknown bias model" ELSE "")
            ELSE IF e.out # "ok" THEN "no analytic derivative"
            ELSE LET in == SelectSeq([q \in DOMAIN e.z |-> q], LAMBDA q : e.z[q] >= e.edges[e.k + 1] /\ e.z[q] <= e.edges[e.k + 2])
                     m == (IF e.p1 = e.probe THEN 1 ELSE 0) + (IF e.p2 = e.probe THEN 1 ELSE 0)
                     Sum(y) == FoldSeq(LAMBDA q, a : a + y[in[q]] * (IF q = 1 \/ q = Len(in) THEN 1 ELSE IF q % 2 = 0 THEN 4 ELSE 2), 0, [q \in DOMAIN in |-> q])
                     D(y) == RDiv(RDiv(R(m * (e.z[2] - e.z[1]) * Sum(y)), R(48)), [n |-> e.b[1], d |-> e.b[2]]) IN
                 IF Len(in) % 2 = 0 THEN "odd number of samples expected"
                 ELSE IF \E i \in DOMAIN e.elements : LET el == e.elements[i] d == D(el.y) IN <<d.n, d.d>> # <<el.n, el.d>>
                 THEN "analytic derivative of an element" ELSE ""
      [] e.op = "keys" -> IF SetOf(e.got) = SetOf(e.want) /\ NoDup(e.got) THEN "" ELSE "spectra with a derivative"
      [] e.op = "same" -> IF e.same THEN "" ELSE "derivatives change when " \o e.what
      [] e.op = "refuse" -> IF e.out = "ok" THEN "derivative from an incomplete set of variations" ELSE ""
      [] OTHER -> "unknown event"
TraceNext ==
    /\ ok /\ pos <= Len(Tr)
    /\ LET c == Clause(Ev) IN
        IF c = "" THEN /\ ok' = TRUE /\ pos' = pos + 1 /\ ((pos = Len(Tr)) => Accept(tid))
        ELSE /\ ok' = FALSE /\ pos' = pos /\ Reject(tid, pos, c)
    /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
