------------------------------ MODULE Overwrite ------------------------------
(***************************************************************************)
(* Places that hold results: a directory is a function from the names of     *)
(* what it holds to their contents.  What is asked of a write is a policy:    *)
(*   "refuse"   nothing is written when any of the names is taken             *)
(*   "keep"     what is there stays, what is missing is added                 *)
(*   "over"     what is named is replaced, the rest of the directory stays    *)
(*   "replace"  the directory holds afterwards what was written and no more   *)
(*   "whole"    like refuse, but for a directory that holds anything at all    *)
(***************************************************************************)
EXTENDS Kit
Empty == <<>>
Upd(d, new) == [x \in DOMAIN d \cup DOMAIN new |-> IF x \in DOMAIN new THEN new[x] ELSE d[x]]
Refused(d, new, policy) == \/ policy = "refuse" /\ DOMAIN d \cap DOMAIN new # {}
                           \/ policy = "whole" /\ DOMAIN d # {}
Written(d, new, policy) ==
    IF Refused(d, new, policy) THEN d
    ELSE CASE policy \in {"refuse", "over", "whole"} -> Upd(d, new)
           [] policy = "keep" -> Upd(new, d)
           [] policy = "replace" -> new
=============================================================================
