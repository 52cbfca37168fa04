------------------------------ MODULE Restart ------------------------------
(* A forecast computes its products in order, each kept in a file; it may   *)
(* be killed anywhere and started again on the same directory.  Property    *)
(* P06.                                                                      *)
EXTENDS Kit
CONSTANTS Products,      \* in order of computation
          InPlace        \* fault switch: the file appears under its name before it is complete
VARIABLES file,          \* product -> "none", "part", "full"
          mem,           \* products the running process has in hand (right ones)
          wrong,         \* products it took from an incomplete file
          proc,          \* "down", "up", "done"
          fresh,         \* computations of this attempt
          again          \* a complete product was computed again
rvars == <<file, mem, wrong, proc, fresh, again>>
PSet == SetOf(Products)
RInit == /\ file = [p \in PSet |-> "none"] /\ mem = {} /\ wrong = {} /\ proc = "down" /\ fresh = {} /\ again = FALSE
Prev(p) == {Products[i] : i \in 1..(PosOf(p, Products) - 1)}
Start == proc = "down" /\ proc' = "up" /\ mem' = {} /\ wrong' = {} /\ fresh' = {} /\ UNCHANGED <<file, again>>
Turn(p) == proc = "up" /\ p \notin mem \cup wrong /\ Prev(p) \subseteq mem \cup wrong
\* a product under its final name is taken from there
Exists(p) == file[p] = "full" \/ (InPlace /\ file[p] = "part")
Reuse(p) == /\ Turn(p) /\ Exists(p) /\ p \notin fresh
            /\ IF file[p] = "full" THEN mem' = mem \cup {p} /\ UNCHANGED wrong ELSE wrong' = wrong \cup {p} /\ UNCHANGED mem
            /\ UNCHANGED <<file, proc, fresh, again>>
Compute(p) == /\ Turn(p) /\ ~Exists(p) /\ p \notin fresh
              /\ fresh' = fresh \cup {p} /\ again' = (again \/ file[p] = "full")
              /\ UNCHANGED <<file, mem, wrong, proc>>
BeginWrite(p) == Turn(p) /\ p \in fresh /\ file[p] # "full" /\ file' = [file EXCEPT ![p] = "part"]
                 /\ UNCHANGED <<mem, wrong, proc, fresh, again>>
EndWrite(p) == /\ Turn(p) /\ p \in fresh /\ file[p] = "part" /\ file' = [file EXCEPT ![p] = "full"] /\ mem' = mem \cup {p}
               /\ UNCHANGED <<wrong, proc, fresh, again>>
Finish == proc = "up" /\ PSet \subseteq mem \cup wrong /\ proc' = "done" /\ UNCHANGED <<file, mem, wrong, fresh, again>>
Crash == proc = "up" /\ proc' = "down" /\ mem' = {} /\ wrong' = {} /\ fresh' = {} /\ UNCHANGED <<file, again>>

NothingWrong == wrong = {}
NotAgain == ~again
DoneIsComplete == proc = "done" => \A p \in PSet : file[p] = "full"

\* one whole attempt, as seen from outside: what was complete when it began, what it computed, how it ended
AttemptAllowed(complete, computed, end, after) ==
    /\ SetOf(computed) \cap complete = {}
    /\ complete \subseteq after
    /\ NoDup(computed)
    /\ (end = "ok" => after = PSet /\ SetOf(computed) = PSet \ complete)
    /\ end \in {"ok", "killed"}
=============================================================================
