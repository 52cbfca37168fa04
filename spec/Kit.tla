-------------------------------- MODULE Kit --------------------------------
(* Shared helpers: JSON output for the conformance harness, and folds.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Out(tag, rec) == PrintT("@@" \o tag \o " " \o ToJson(rec))
Accept(t) == Out("ACCEPT", [t |-> t])
Reject(t, i, c) == Out("REJECT", [t |-> t, i |-> i, c |-> c])

SetOf(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
HasKey(r, k) == k \in DOMAIN r
NoDup(s) == Cardinality(SetOf(s)) = Len(s)
SameSet(s, t) == SetOf(s) = SetOf(t) /\ Len(s) = Len(t)
PosOf(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
=============================================================================
