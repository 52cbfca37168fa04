------------------------------ MODULE ParamsMC ------------------------------
EXTENDS Params
CONSTANT Big

D(f, c, free, cosmo, pr) == [fid |-> f, fac |-> c, free |-> free, cosmo |-> cosmo, probe |-> pr]

Init ==
    /\ \E fm \in BOOLEAN, fd \in BOOLEAN, fx \in BOOLEAN, ode \in {11, 10}, xf \in (IF Big THEN {0, -16, 3} ELSE {0, -16}),
          xc \in (IF Big THEN {4, 7, 28} ELSE {7}) :
        par = [n \in {"Omm", "OmDE", "bgp"} |->
                 CASE n = "Omm" -> D(5, 4, fm, TRUE, "NONE")
                   [] n = "OmDE" -> D(ode, 4, fd, TRUE, "NONE")
                   [] OTHER -> D(xf, xc, fx, FALSE, "PhotometricGalaxy")]
    /\ disps \in (IF Big THEN {<<1, 2, 4>>, <<4, 1, 2>>} ELSE {<<3, 1>>})
    /\ flat \in BOOLEAN
    /\ cur = [p \in DOMAIN par |-> par[p].fid * FidUnit]
    /\ moved = {} /\ dirty = FALSE /\ act = [op |-> "init"]

Next == \/ \E p \in Names : \E k \in Steps \cup {0, Len(disps) + 1} : Vary(p, k)
        \/ Restore
        \/ \E o \in BOOLEAN : Reload(o)
Spec == Init /\ [][Next]_vars

Emit == Out("T", [lvl |-> TLCGet("level"), pre |-> [par |-> par, disps |-> disps, flat |-> flat, cur |-> cur, dirty |-> dirty],
                  act |-> act',
                  post |-> [par |-> par', disps |-> disps', flat |-> flat', cur |-> cur', dirty |-> dirty']])
View == <<par, disps, flat, cur, moved, dirty>>
=============================================================================
