------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The variation / reset state machine of the forecast's physical          *)
(* parameters (seyfert/cosmology/parameter.py, seyfert/main/cl_core.py).    *)
(*                                                                         *)
(* All quantities are exact integers: fiducials are in 1/16, displacements  *)
(* in 1/64, step-size factors in 1/4, values in 1/4096, so that the floats  *)
(* of the implementation are exact too.                                    *)
(***************************************************************************)
EXTENDS Kit

One == 4096
FidUnit == 256          \* value units per fiducial unit

VARIABLES
    par,     \* name -> [fid, fac, free, cosmo, probe]
    disps,   \* positive base displacements, as given (any order)
    flat,    \* flat-universe constraint on?
    cur,     \* name -> current value
    moved,   \* ghost: names varied since the last return to fiducial
    dirty,   \* ghost: a variation was refused half-way since the last return to fiducial
    act      \* last operation, with its outcome

vars == <<par, disps, flat, cur, moved, dirty, act>>

Names == DOMAIN par
Fid(p) == par[p].fid * FidUnit
Asc(s) == SortSeq(s, LAMBDA a, b : a < b)
Eps(k) == IF k > 0 THEN Asc(disps)[k] ELSE -(Asc(disps)[-k])
Steps == {k \in -Len(disps)..Len(disps) : k # 0}
Displaced(p, k) == LET d == par[p] IN
    Fid(p) + Eps(k) * d.fac * (IF d.fid = 0 THEN 16 ELSE d.fid)

Coupled == {"Omm", "OmDE"}
Partner(p) == IF p = "Omm" THEN "OmDE" ELSE "Omm"
FidSumOne == par["Omm"].fid + par["OmDE"].fid = 16
BothFree == par["Omm"].free /\ par["OmDE"].free

\* the variation (p,k): refused / accepted, and the values afterwards
Outcome(p, k) ==
    IF ~par[p].free THEN "refused"
    ELSE IF k \notin Steps THEN "nostep"
    ELSE IF flat /\ p \in Coupled /\ (~FidSumOne \/ BothFree) THEN "refusedflat"
    ELSE "ok"

After(p, k) ==
    IF flat /\ p \in Coupled
    THEN [cur EXCEPT ![p] = Displaced(p, k), ![Partner(p)] = One - Displaced(p, k)]
    ELSE [cur EXCEPT ![p] = Displaced(p, k)]

Vary(p, k) ==
    /\ p \in Names
    /\ LET o == Outcome(p, k) IN
        /\ act' = [op |-> "vary", p |-> p, k |-> k, out |-> o]
        /\ cur' = IF o = "ok" THEN After(p, k) ELSE cur
        /\ moved' = IF o = "ok" THEN moved \cup {p} ELSE moved
        /\ dirty' = (dirty \/ o \in {"refusedflat", "nostep"})
    /\ UNCHANGED <<par, disps, flat>>

Restore ==
    /\ cur' = [p \in Names |-> Fid(p)]
    /\ moved' = {} /\ dirty' = FALSE
    /\ act' = [op |-> "restore", out |-> "ok"]
    /\ UNCHANGED <<par, disps, flat>>

\* write to disk, read back (optionally the cosmological parameters only)
Reload(only) ==
    LET keep == IF only THEN {p \in Names : par[p].cosmo} ELSE Names IN
    /\ keep # {} /\ ~dirty
    /\ ~only \/ keep # Names
    /\ par' = [p \in keep |-> par[p]]
    /\ cur' = [p \in keep |-> cur[p]]
    /\ moved' = moved \cap keep
    /\ act' = [op |-> "reload", only |-> only, out |-> "ok"]
    /\ UNCHANGED <<disps, flat, dirty>>

FreeNames == {p \in Names : par[p].free}
CosmoNames == {p \in Names : par[p].cosmo}
FreeForProbe(x) == {p \in FreeNames : par[p].cosmo \/ par[p].probe = x}

-----------------------------------------------------------------------------
\* Properties

OnlyRequestedMoves ==
    ~dirty => {p \in Names : cur[p] # Fid(p)} \subseteq
        (moved \cup IF flat THEN {Partner(p) : p \in moved \cap Coupled} ELSE {})

OnlyFreeIsVaried == moved \subseteq FreeNames

FlatStaysFlat ==
    (flat /\ Coupled \subseteq Names /\ FidSumOne /\ ~dirty) => cur["Omm"] + cur["OmDE"] = One

\* from fiducial, a variation is a function of (p, k) alone; +k and -k are symmetric
Symmetric == \A p \in Names, k \in Steps : Displaced(p, k) + Displaced(p, -k) = 2 * Fid(p)
Monotone == \A p \in Names, k \in Steps, l \in Steps :
    (k < l /\ par[p].fac > 0 /\ par[p].fid >= 0) => Displaced(p, k) < Displaced(p, l)
=============================================================================
