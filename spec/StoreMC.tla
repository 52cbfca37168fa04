------------------------------ MODULE StoreMC ------------------------------
(* Two files, three roots (one below another), handles holding objects of several kinds and versions. *)
EXTENDS Store
CONSTANTS MaxOps
Files == 1..2
Roots == {"top", "in", "side"}
Handles == 1..2
V(k, n) == k \o n
One(k, fam, n) == {[slot |-> k, fam |-> fam, shared |-> "no", val |-> V(k, n)]}
Sh(k, n) == [slot |-> k, fam |-> "cls", shared |-> "yes", val |-> V(k, n)]
\* the objects of the model: two unrelated kinds, a cosmology with and without spectrum, coefficients sharing weight functions
Obj(kind, n) ==
    CASE kind \in {"alpha", "beta"} -> One(kind, kind, n)
      [] kind = "cosmology" -> One("cosmology", "cosmo", n) \cup One("pmm", "cosmo", n)
      [] kind = "bare" -> One("cosmology", "cosmo", n)
      [] kind = "pmm" -> One("pmm", "cosmo", n)
      [] kind = "cl11" -> One("cl11", "cls", n) \cup {Sh("w1", n)}
      [] kind = "cl12" -> One("cl12", "cls", n) \cup {Sh("w1", n), Sh("w2", n)}
Kinds == {"alpha", "beta", "cosmology", "bare", "pmm", "cl11", "cl12"}
Versions == {"a", "b"}
\* what a load of a kind reads
Want(kind) == Slots(Own(Obj(kind, "a")))
Reads(kind) == Slots(Obj(kind, "a"))

VARIABLES mem, files, op, n, first
svars == <<mem, files, op, n, first>>
NONE == [kind |-> "none", parts |-> {}]
Init == mem = [h \in Handles |-> NONE] /\ files = [f \in Files |-> {}] /\ op = [s |-> "init", a |-> <<>>] /\ n = 0 /\ first = [f \in Files |-> {}]
Act(s, a) == op' = [s |-> s, a |-> a] /\ n' = n + 1
\* two kinds per behaviour keep the graph small: the first handle's kind is free, the other one's too, but chosen at creation only
New(h, kind, v) == mem' = [mem EXCEPT ![h] = [kind |-> kind, parts |-> Obj(kind, v)]] /\ UNCHANGED <<files, first>> /\ Act("new", <<h, kind, v>>)
Save(h, f, r) ==
    /\ mem[h] # NONE /\ Proper(files[f], r, mem[h].parts)
    /\ files' = [files EXCEPT ![f] = Saved(files[f], r, mem[h].parts)]
    /\ first' = [first EXCEPT ![f] = @ \cup {c \in files'[f] : ~\E d \in @ : d.root = c.root /\ d.slot = c.slot}]
    /\ UNCHANGED mem /\ Act(IF Taken(files[f], r, mem[h].parts) THEN "refuse" ELSE "save", <<h, f, r>>)
Load(h, f, r, kind) ==
    /\ files[f] # {}
    /\ IF Readable(files[f], r, Want(kind))
       THEN mem' = [mem EXCEPT ![h] = [kind |-> kind, parts |-> {[slot |-> c.slot, fam |-> c.fam, shared |-> c.shared, val |-> c.val] :
                                                                 c \in {d \in At(files[f], r) : d.slot \in Reads(kind)}}]]
       ELSE UNCHANGED mem
    /\ UNCHANGED <<files, first>> /\ Act(IF Readable(files[f], r, Want(kind)) THEN "load" ELSE "noload", <<h, f, r, kind>>)
Next == /\ n < MaxOps
        /\ \/ \E h \in Handles, k \in Kinds, v \in Versions : New(h, k, v)
           \/ \E h \in Handles, f \in Files, r \in Roots : Save(h, f, r)
           \/ \E f \in Files, r \in Roots, k \in Kinds : Load(1, f, r, k)
Spec == Init /\ [][Next]_svars
View == <<mem, files, n, first>>

\* what was stored first in a place stays there, and nothing else ever gets there
Kept == \A f \in Files : files[f] = first[f]
OnePerPlace == \A f \in Files : \A c, d \in files[f] : (c.root = d.root /\ c.slot = d.slot) => c = d
\* an object saved whole is loaded back whole, whatever was saved elsewhere meanwhile
Faithful == [][ (op'.s \in {"save"}) => LET h == op'.a[1] f == op'.a[2] r == op'.a[3] IN
                 Plain(mem[h].parts) = Loaded(files'[f], r, Slots(mem[h].parts)) ]_svars
Isolated == [][ \A f \in Files, r \in Roots : (At(files'[f], r) # At(files[f], r)) => (op'.s = "save" /\ op'.a[2] = f /\ op'.a[3] = r) ]_svars
Cell2(c) == <<c.root, c.slot, c.val>>
Show(m) == [kind |-> m.kind, parts |-> {<<p.slot, p.val>> : p \in m.parts}]
St(m, fs) == [mem |-> [h \in Handles |-> Show(m[h])], files |-> [f \in Files |-> {Cell2(c) : c \in fs[f]}]]
Emit == Out("T", [pre |-> St(mem, files), op |-> op', post |-> St(mem', files'), n |-> n])
\* for the simulated behaviours: fewer new objects, and no steps without effect (they are emitted, and tried, all the same)
Guided == (op'.s = "new" => (mem[op'.a[1]] = NONE \/ n % 4 = 0)) /\ op'.s \notin {"noload", "refuse"}
=============================================================================
