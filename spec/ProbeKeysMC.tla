---------------------------- MODULE ProbeKeysMC ----------------------------
EXTENDS ProbeKeys
CONSTANTS PP, IDs

MCInit == d = <<>> /\ transposing \in BOOLEAN /\ last = <<"init">>
MCNext ==
    /\ UNCHANGED transposing
    /\ \/ \E a \in PP, b \in PP, i \in IDs : DoPut(a, b, i) /\ last' = <<"put", a, b, i>>
       \/ \E a \in PP, b \in PP : DoDel(a, b) /\ last' = <<"del", a, b>>
       \/ \E a \in PP, b \in PP, c \in PP, e \in PP, i \in IDs, j \in IDs :
             /\ i # j /\ a # b /\ <<a, b>> # <<c, e>>
             /\ DoUpdate(<< <<a, b, i>>, <<c, e, j>> >>) /\ last' = <<"update", a, b, i, c, e, j>>
Spec == MCInit /\ [][MCNext]_kvars
View == <<d, transposing>>

\* names determine probes and pairs, in every spelling
Unambiguous ==
    /\ \A k \in Kinds, l \in Kinds, p \in Probes, q \in Probes : (NameOf(k, p) = NameOf(l, q)) => (p = q)
    /\ \A k \in Kinds, l \in Kinds, p \in Probes, q \in Probes, r \in Probes, s \in Probes :
          (Spell(k, p, q) = Spell(l, r, s)) => (<<p, q, k>> = <<r, s, l>>)
    /\ \A p \in Probes, q \in Probes, r \in Probes, s \in Probes :
          (FisherSpell(p, q) = FisherSpell(r, s)) => (<<p, q>> = <<r, s>>)
\* both orders are the same quantity, transposed
OneQuantity == \A a \in PP, b \in PP : Has(d, a, b) =>
                   /\ Has(d, b, a)
                   /\ Get(d, a, b).id = Get(d, b, a).id
                   /\ (Get(d, a, b).t = Get(d, b, a).t) <=> (a = b \/ ~transposing)
\* a write is seen through both orders, and changes nothing else
SeenThroughBoth == [][\A a \in PP, b \in PP, i \in IDs :
                        (last' = <<"put", a, b, i>>) =>
                            /\ Get(d', a, b) = [id |-> i, t |-> FALSE]
                            /\ Get(d', b, a) = [id |-> i, t |-> (transposing /\ a # b)]
                            /\ \A c \in DOMAIN d : c # Canon(a, b) => c \in DOMAIN d' /\ d'[c] = d[c]]_kvars

St(dd) == [tr |-> transposing, s |-> {<<c[1], c[2], dd[c].id, dd[c].t>> : c \in DOMAIN dd}]
Emit == Out("T", [pre |-> St(d), act |-> last', post |-> St(d')])
Names == Out("K", [long |-> LongN, short |-> ShortN, alias |-> AliasN,
                   pairs |-> {[k |-> k, a |-> a, b |-> b, raw |-> Spell(k, a, b)] : k \in Kinds, a \in Probes, b \in Probes}])
ASSUME Names
=============================================================================
