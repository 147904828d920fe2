-------------------------------- MODULE Bulk --------------------------------
(* What the OID tree holds ready for GetBulk and for unregistration (C23):  *)
(* the k-th leaf in a range, and a removal that also takes every ancestor   *)
(* left without children.  First what they mean, then as they are built.    *)
EXTENDS TreeImpl

KthIs(leaves, a, b, inc, k, r) ==           \* r is the k-th leaf in range
    LET c == {o \in leaves : InRange(o, a, b, inc)} IN
    IF k < 1 \/ Cardinality(c) < k THEN ~r.found
    ELSE r.found /\ r.o \in c /\ Cardinality({x \in c : OidLess(x, r.o)}) = k - 1

\* ancestors of o that have a node below them which is no ancestor of o stay
Pruned(ns, o) ==
    LET keep == Removed(ns, o)
        above == Ancestry(o) \ {o}
    IN {p \in keep : p \in above => \E q \in keep : q # p /\ IsPrefixOf(p, q) /\ q \notin above}
RemoveWith(ns, o, prune) == IF o \notin ns THEN ns ELSE IF prune THEN Pruned(ns, o) ELSE Removed(ns, o)

(* the descent that counts down                                             *)
RECURSIVE CountT(_, _, _, _, _, _, _, _, _), CountOf(_, _, _, _, _, _, _, _, _, _)
CountT(kids, path, ind, eq1, eq2, left, o1, o2, inc) ==
    IF kids = <<>> THEN
        IF /\ ~eq1 \/ (inc /\ ind = Len(o1))
           /\ ~eq2 \/ ind < Len(o2)
           /\ path # <<>>
        THEN IF left = 1 THEN [found |-> TRUE, o |-> path, left |-> 1] ELSE [found |-> FALSE, o |-> <<>>, left |-> left - 1]
        ELSE [found |-> FALSE, o |-> <<>>, left |-> left]
    ELSE CountOf(kids, 1, path, ind, eq1, eq2, left, o1, o2, inc)
CountOf(kids, i, path, ind, eq1, eq2, left, o1, o2, inc) ==
    IF i > Len(kids) THEN [found |-> FALSE, o |-> <<>>, left |-> left]
    ELSE LET c == kids[i]
             skip == \/ eq1 /\ ind < Len(o1) /\ WLess(c.s, o1[ind + 1])
                     \/ eq2 /\ (ind >= Len(o2) \/ WLess(o2[ind + 1], c.s))
             more1 == ind < Len(o1)
             more2 == ind < Len(o2)
             r == IF skip THEN [found |-> FALSE, o |-> <<>>, left |-> left]
                  ELSE CountT(c.k, Append(path, c.s), IF more1 \/ more2 THEN ind + 1 ELSE ind,
                              more1 /\ eq1 /\ c.s = o1[ind + 1], more2 /\ eq2 /\ c.s = o2[ind + 1], left, o1, o2, inc)
         IN IF r.found THEN r ELSE CountOf(kids, i + 1, path, ind, eq1, eq2, r.left, o1, o2, inc)
KthT(kids, o1, o2, inc, k) ==
    IF k < 1 THEN None
    ELSE LET r == CountT(kids, <<>>, 0, TRUE, o2 # <<>>, k, o1, o2, inc) IN [found |-> r.found, o |-> r.o]

(* the climb that removes nodes without children; p: where it stands        *)
RECURSIVE KidsAt(_, _), PruneT(_, _)
KidsAt(kids, p) == IF p = <<>> THEN kids ELSE KidsAt(kids[Find(kids, p[1])].k, Tail(p))
PruneT(tree, p) ==
    IF p = <<>> \/ KidsAt(tree, p) # <<>> THEN tree
    ELSE PruneT(RemT(tree, p), SubSeq(p, 1, Len(p) - 1))
RemPruneT(tree, o) == PruneT(RemT(tree, o), SubSeq(o, 1, Len(o) - 1))
=============================================================================
