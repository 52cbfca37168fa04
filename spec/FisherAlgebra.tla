---------------------------- MODULE FisherAlgebra ----------------------------
(***************************************************************************)
(* Fisher matrices as functions of pairs of parameter NAMES, with exact      *)
(* rational entries, and the operations on them.                             *)
(***************************************************************************)
EXTENDS Rational

Pars(F) == F.cosmo \cup F.nuis
At(F, p, q) == IF p \in Pars(F) /\ q \in Pars(F) THEN F.m[<<p, q>>] ELSE R(0)
Mk(name, cosmo, nuis, m) == [name |-> name, cosmo |-> cosmo, nuis |-> nuis, m |-> m]

Combine(F, G, op(_, _), sign) ==
    LET ps == Pars(F) \cup Pars(G) IN
    Mk(F.name \o " " \o sign \o " " \o G.name, F.cosmo \cup G.cosmo, F.nuis \cup G.nuis,
       TLCEval([pq \in ps \X ps |-> op(At(F, pq[1], pq[2]), At(G, pq[1], pq[2]))]))
Add(F, G) == Combine(F, G, RAdd, "+")
Sub(F, G) == Combine(F, G, RSub, "-")

Keep(F, ps) == Mk(F.name, F.cosmo \cap ps, F.nuis \cap ps, TLCEval([pq \in ps \X ps |-> F.m[pq]]))
Fix(F, S) == Keep(F, Pars(F) \ S)

\* marginalising one parameter (Schur complement), then several in any order
Elim(m, ps, b) == TLCEval([pq \in (ps \ {b}) \X (ps \ {b}) |->
                     RSub(m[pq], RDiv(RMul(m[<<pq[1], b>>], m[<<b, pq[2]>>]), m[<<b, b>>]))])
RECURSIVE ElimAll(_, _, _)
ElimAll(m, ps, s) == IF s = <<>> THEN m ELSE ElimAll(Elim(m, ps, s[1]), ps \ {s[1]}, Tail(s))
Universe == <<"h", "w0", "wa", "Omm", "gamma", "mnu", "b1", "b2", "aIA">>
Order(S) == SetToSortSeq(S, LAMBDA a, b : PosOf(a, Universe) < PosOf(b, Universe))
Marg(F, S) == LET ps == Pars(F) \ S IN
              Mk(F.name, F.cosmo \ S, F.nuis \ S, ElimAll(F.m, Pars(F), Order(S \cap Pars(F))))
Prior(F, p, w) == [F EXCEPT !.m = [@ EXCEPT ![<<p, p>>] = RAdd(@, w)]]      \* w = 1/sigma^2

\* positive definite: all pivots positive
RECURSIVE Pivots(_, _, _)
Pivots(m, ps, s) == IF s = <<>> THEN TRUE ELSE RPos(m[<<s[1], s[1]>>]) /\ Pivots(Elim(m, ps, s[1]), ps \ {s[1]}, Tail(s))
Definite(F) == Pivots(F.m, Pars(F), Order(Pars(F)))
Symmetric(F) == \A pq \in DOMAIN F.m : F.m[pq] = F.m[<<pq[2], pq[1]>>]

\* squared marginalised and unmarginalised errors, squared figure of merit, squared correlations
MargErr2(F, p) == RInv(Marg(F, Pars(F) \ {p}).m[<<p, p>>])
Err2(F, p) == RInv(F.m[<<p, p>>])
Two(F, p, q) == Marg(F, Pars(F) \ {p, q}).m
Fom2(F) == LET m == Two(F, "w0", "wa") IN
           RSub(RMul(m[<<"w0", "w0">>], m[<<"wa", "wa">>]), RMul(m[<<"w0", "wa">>], m[<<"wa", "w0">>]))
\* the correlation has the opposite sign of the off-diagonal element of the 2x2 marginal matrix
Corr2(F, p, q) == IF p = q THEN R(1) ELSE
                  LET m == Two(F, p, q)
                      c == RDiv(RMul(m[<<p, q>>], m[<<p, q>>]), RMul(m[<<p, p>>], m[<<q, q>>])) IN
                  IF m[<<p, q>>].n > 0 THEN RNeg(c) ELSE c

VARIABLES heap, op         \* heap: slot -> matrix
fvars == <<heap, op>>
Put(k, F) == heap' = [x \in DOMAIN heap \cup {k} |-> IF x = k THEN F ELSE heap[x]]
=============================================================================
