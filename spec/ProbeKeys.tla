----------------------------- MODULE ProbeKeys -----------------------------
(***************************************************************************)
(* Names of probes and probe pairs, and the dictionaries keyed by a pair.    *)
(* A probe is a number 1..4; each has a long, a short and an alias name.     *)
(* A dictionary holds at most one quantity per unordered pair; it is kept    *)
(* here in canonical order (smaller probe first) with a flag telling that    *)
(* the canonical order sees the written array transposed.                    *)
(***************************************************************************)
EXTENDS Kit

LongN  == <<"PhotometricGalaxy", "SpectroscopicGalaxy", "Lensing", "Void">>
ShortN == <<"ph", "sp", "wl", "vd">>
AliasN == <<"GCph", "GCsp", "WL", "V">>
Probes == 1..4
Kinds == {"long", "short", "alias"}
NameOf(kind, p) == CASE kind = "long" -> LongN[p] [] kind = "short" -> ShortN[p] [] OTHER -> AliasN[p]
\* spelling of an ordered pair: strings, except that aliases are spelt as two names
Spell(kind, a, b) == CASE kind = "long" -> <<LongN[a] \o "_" \o LongN[b]>>
                       [] kind = "short" -> <<ShortN[a] \o ShortN[b]>>
                       [] OTHER -> <<AliasN[a], AliasN[b]>>
\* how Fisher matrix names write it
FisherSpell(a, b) == IF a = b THEN AliasN[a] ELSE "XC(" \o AliasN[a] \o "," \o AliasN[b] \o ")"

IsProbe(s) == \E k \in Kinds, p \in Probes : NameOf(k, p) = s
ProbeOf(s) == CHOOSE p \in Probes : \E k \in Kinds : NameOf(k, p) = s
IsPair(raw) == \E k \in Kinds, a \in Probes, b \in Probes : Spell(k, a, b) = raw
PairOf(raw) == CHOOSE ab \in Probes \X Probes : \E k \in Kinds : Spell(k, ab[1], ab[2]) = raw
KindOf(raw) == CHOOSE k \in Kinds : \E a \in Probes, b \in Probes : Spell(k, a, b) = raw
IsFisherPair(s) == \E a \in Probes, b \in Probes : FisherSpell(a, b) = s
FisherPairOf(s) == CHOOSE ab \in Probes \X Probes : FisherSpell(ab[1], ab[2]) = s

-----------------------------------------------------------------------------
VARIABLES d, transposing, last      \* d: canonical pair -> [id, t]   (id: which write)
kvars == <<d, transposing, last>>

Canon(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
Has(dd, a, b) == Canon(a, b) \in DOMAIN dd
Get(dd, a, b) == LET e == dd[Canon(a, b)] IN
                 [id |-> e.id, t |-> IF transposing /\ a # b THEN (e.t # (a > b)) ELSE FALSE]
Put(dd, a, b, id) == LET c == Canon(a, b)
                         e == [id |-> id, t |-> transposing /\ a > b]
                     IN [x \in DOMAIN dd \cup {c} |-> IF x = c THEN e ELSE dd[x]]
Del(dd, a, b) == [x \in DOMAIN dd \ {Canon(a, b)} |-> dd[x]]
PutAll(dd, items) == FoldLeft(LAMBDA acc, it : Put(acc, it[1], it[2], it[3]), dd, items)

DoPut(a, b, id) == d' = Put(d, a, b, id)
DoDel(a, b) == /\ Has(d, a, b) /\ d' = Del(d, a, b)
DoUpdate(items) == d' = PutAll(d, items)
=============================================================================
