----------------------------- MODULE JobDirsMC -----------------------------
EXTENDS JobDirs
CONSTANTS P, N

MCInit ==
    /\ have = {} /\ query = "none"
    /\ par = <<>> /\ disps = <<>> /\ flat = FALSE /\ cur = <<>> /\ moved = {} /\ dirty = FALSE /\ act = "none"
MCNext ==
    /\ \E st \in {"cl"}, a \in Pairs(P, N) :
        \/ MakeDir(st, a[1], a[2]) /\ query' = <<"mkdir", st, a[1], a[2]>>
        \/ \E d \in DirOf(st, a[1], a[2]) : d.files < 2
                             /\ PutFile(st, a[1], a[2], d.files + 1) /\ query' = <<"put", st, a[1], a[2]>>
        \/ Drop(st, a[1], a[2]) /\ query' = <<"drop", st, a[1], a[2]>>
    /\ UNCHANGED vars
Spec == MCInit /\ [][MCNext]_<<vars, jvars>>
View == have

Unambiguous == Injective(P, 12)
OneDirPerPair == \A d \in have, e \in have : (d.st = e.st /\ d.p = e.p /\ d.k = e.k) => d = e
ListedAllAndOnly == \A p \in P : {k \in -N..N : <<p, k>> \in Variations}
                                    = {k \in -N..N : k # 0 /\ \E d \in have : DirName(d.p, d.k) = DirName(p, k)}
Sorted == \A p \in P : LET s == Samples(p) IN
              s # <<"error">> => \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

Answers(h) == [have |-> h]
Emit == Out("T", [lvl |-> TLCGet("level"), pre |-> have, act |-> query', post |-> have',
                  vars |-> Variations', params |-> ClParams',
                  samples |-> [p \in P |-> Samples(p)'],
                  files |-> {<<a[1], a[2], FileOf("cl", a[1], a[2])'>> : a \in Pairs(P, N)}])
=============================================================================
