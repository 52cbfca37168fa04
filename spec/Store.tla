------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Objects saved in shared files under roots, and loaded back.               *)
(* An object is a set of parts [slot, fam, shared, val]: a part is what one   *)
(* place of a root holds.  Most kinds are one part; a cosmology brings its    *)
(* power spectrum, an angular coefficient the weight functions of its probes. *)
(* Parts of one family may share a root; the weight functions are shared by   *)
(* the angular coefficients of a root, which must agree on them.              *)
(* A file is a set of cells [root, slot, fam, shared, val].                   *)
(***************************************************************************)
EXTENDS Kit

At(file, r) == {c \in file : c.root = r}
Slots(cs) == {c.slot : c \in cs}
Cell(r, p) == [root |-> r, slot |-> p.slot, fam |-> p.fam, shared |-> p.shared, val |-> p.val]
Own(parts) == {p \in parts : p.shared = "no"}
Taken(file, r, parts) == \E c \in At(file, r), p \in Own(parts) : c.slot = p.slot
\* what may be asked: one family per root, one value of what is shared under a root, and
\* a cosmology with its spectrum not beside a spectrum that was saved alone
Proper(file, r, parts) ==
    /\ \A c \in At(file, r), p \in parts : c.fam = p.fam
    /\ \A c \in At(file, r), p \in parts : (p.shared = "yes" /\ c.slot = p.slot) => c.val = p.val
    /\ ("cosmology" \in Slots(parts) /\ Taken(file, r, parts)) => "cosmology" \in Slots(At(file, r))
\* free place: added next to what is there; taken place: refused, and nothing changes
Saved(file, r, parts) == IF Taken(file, r, parts) THEN file
                         ELSE file \cup {Cell(r, p) : p \in {q \in parts : q.slot \notin Slots(At(file, r))}}
\* want: the slots that must be there; may: those also read if present
Readable(file, r, want) == want \subseteq Slots(At(file, r))
Loaded(file, r, slots) == {[slot |-> c.slot, val |-> c.val] : c \in {d \in At(file, r) : d.slot \in slots}}
Plain(parts) == {[slot |-> p.slot, val |-> p.val] : p \in parts}

\* modes of opening: which exist only for existing, only for new files
Opens(exists, mode) == CASE mode \in {"r", "r+"} -> exists
                         [] mode \in {"w", "w-", "x"} -> ~exists
                         [] OTHER -> TRUE

\* ---- what "equal" means for the objects of a kind: the fields their comparison is about
Pick(v, ks) == [k \in ks |-> v[k]]
ProjCl(v) == Pick(v, {"c_lij", "l_bin_centers", "l_bin_widths"})
Proj(kind, v) ==
    CASE kind = "weight" -> Pick(v, {"z_grid", "w_bin_z"})
      [] kind = "cl" -> ProjCl(v)
      [] kind = "clcoll" -> {<<x[1], ProjCl(x[2])>> : x \in SetOf(v)}
      [] kind = "pmm" -> Pick(v, {"z_grid", "k_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k", "transfer_function"})
      [] kind = "deltacl" -> Pick(v, {"delta_c_lij", "noise_lij", "l_bin_centers", "l_bin_widths"})
      [] kind = "cosmology" -> Pick(v, {"params", "is_flat", "model_name"})
      [] OTHER -> v
=============================================================================
