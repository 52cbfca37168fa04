-------------------------- MODULE FisherAlgebraMC --------------------------
EXTENDS FisherAlgebra
CONSTANTS MaxOps

Sym(ps, f(_, _)) == [pq \in ps \X ps |-> R(f(pq[1], pq[2]))]
\* three matrices over overlapping parameter sets
A == Mk("[A]", {"h", "w0"}, {"b1"}, Sym({"h", "w0", "b1"}, LAMBDA p, q :
        IF p = q THEN (CASE p = "h" -> 3 [] p = "w0" -> 2 [] OTHER -> 4) ELSE IF {p, q} = {"h", "b1"} THEN -1 ELSE 1))
B == Mk("[B]", {"w0", "wa"}, {}, Sym({"w0", "wa"}, LAMBDA p, q : IF p = q THEN (IF p = "w0" THEN 2 ELSE 5) ELSE -2))
C == Mk("[C]", {"wa"}, {"b1", "b2"}, Sym({"wa", "b1", "b2"}, LAMBDA p, q :
        IF p = q THEN 2 ELSE IF {p, q} = {"b1", "b2"} THEN 1 ELSE 0))

Start == {<<A, B>>, <<A, C>>, <<C, B>>}
MCInit == \E s \in Start : heap = [x \in {"1", "2"} |-> IF x = "1" THEN s[1] ELSE s[2]] /\ op = <<"init">>
Slots == DOMAIN heap
MCNext ==
    /\ TLCGet("level") <= MaxOps
    /\ \/ \E x \in Slots, y \in Slots : Put("3", Add(heap[x], heap[y])) /\ op' = <<"add", x, y>>
       \/ \E x \in Slots, y \in Slots : Put("3", Sub(heap[x], heap[y])) /\ op' = <<"sub", x, y>>
       \/ \E x \in Slots : \E S \in SUBSET Pars(heap[x]) :
             S # {} /\ S # Pars(heap[x]) /\ Put(x, Fix(heap[x], S)) /\ op' = <<"fix", x, S>>
       \/ \E x \in Slots : \E S \in SUBSET Pars(heap[x]) :
             /\ S # Pars(heap[x]) /\ Definite(heap[x])
             /\ \/ (Put(x, Marg(heap[x], S)) /\ op' = <<"marg", x, S>>)
                \/ (Put("3", Marg(heap[x], S)) /\ op' = <<"margcopy", x, S>>)
       \/ \E x \in Slots : /\ heap[x].cosmo # {} /\ Definite(heap[x])
             /\ (Put("3", Marg(heap[x], heap[x].nuis)) /\ op' = <<"margnuis", x>>)
       \/ \E x \in Slots : (heap[x].cosmo # {} /\ Put(x, Fix(heap[x], heap[x].nuis)) /\ op' = <<"select", x>>)
       \/ \E x \in Slots : Put("3", heap[x]) /\ op' = <<"copy", x>>
       \/ \E x \in Slots : \E p \in Pars(heap[x]) : (Put(x, Prior(heap[x], p, R(4))) /\ op' = <<"prior", x, p>>)
Spec == MCInit /\ [][MCNext]_fvars
View == <<heap, TLCGet("level")>>

AllSymmetric == \A x \in Slots : Symmetric(heap[x])
Labelled == \A x \in Slots : DOMAIN heap[x].m = Pars(heap[x]) \X Pars(heap[x])
SumCommutes == \A x \in Slots, y \in Slots : Add(heap[x], heap[y]).m = Add(heap[y], heap[x]).m
SubUndoesAdd == \A x \in Slots, y \in Slots : LET s == Sub(Add(heap[x], heap[y]), heap[y]) IN
                    \A pq \in DOMAIN s.m : s.m[pq] = At(heap[x], pq[1], pq[2])
FixIsOnce == \A x \in Slots : \A p \in Pars(heap[x]), q \in Pars(heap[x]) :
                 p # q => Fix(Fix(heap[x], {p}), {q}).m = Fix(heap[x], {p, q}).m
MargOrder == \A x \in Slots : Definite(heap[x]) =>
                 \A p \in Pars(heap[x]), q \in Pars(heap[x]) : p # q =>
                    LET F == heap[x] IN
                    /\ Marg(Marg(F, {p}), {q}).m = Marg(Marg(F, {q}), {p}).m
                    /\ Fix(Marg(F, {p}), {q}).m = Marg(Fix(F, {q}), {p}).m
MargLoses == \A x \in Slots : Definite(heap[x]) =>
                 \A p \in Pars(heap[x]) : LET a == MargErr2(heap[x], p)
                                              b == Err2(heap[x], p) IN ~RPos(RSub(b, a))
\* an operation changes its target only
OthersKept == [][\A x \in Slots : (x # "3" /\ (op'[1] \in {"add", "sub", "copy", "margcopy", "margnuis"} \/ op'[2] # x))
                    => heap'[x] = heap[x]]_fvars

Show(F) == [name |-> F.name, cosmo |-> F.cosmo, nuis |-> F.nuis,
            m |-> {<<pq[1], pq[2], F.m[pq].n, F.m[pq].d>> : pq \in DOMAIN F.m}]
St(h) == [x \in DOMAIN h |-> Show(h[x])]
Emit == Out("T", [pre |-> [h |-> St(heap), l |-> TLCGet("level")], act |-> op', post |-> [h |-> St(heap'), l |-> TLCGet("level") + 1]])
=============================================================================
