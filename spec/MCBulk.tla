------------------------------- MODULE MCBulk -------------------------------
(* Bulk over a small universe: the counting descent and the pruning climb   *)
(* against what they mean, in every tree and for every argument.            *)
EXTENDS Bulk, TLC, Json, IOUtils, FiniteSetsExt
CONSTANTS Subs, Depth, MaxK, Ends    \* Ends: depths at which bounds lie beside the tree
VARIABLE tree
W(S) == {W32(n) : n \in S}
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
U == Seqs(W(Subs), Depth)
Bounds == {<<>>} \cup U \cup {Append(o, W32(3)) : o \in {x \in {<<>>} \cup U : Len(x) \in Ends}}
Init == TreeInit /\ tree = <<>>
DoAdd(o) == Add(o, TRUE, 0) /\ tree' = AddT(tree, o, 0)
DoRem(o) == o \in nodes /\ nodes' = Pruned(nodes, o) /\ data' = [n \in nodes' |-> data[n]] /\ tree' = RemPruneT(tree, o)
Next == \E o \in U : DoAdd(o) \/ DoRem(o)
Spec == Init /\ [][Next]_<<nodes, data, tree>>
Refines == NodesOf(tree, <<>>) = nodes /\ SortedT(tree) /\ PrefixClosed(nodes)
KthRight == \A a \in Bounds, b \in Bounds, inc \in BOOLEAN, k \in 0..MaxK :
                KthIs(LeavesPC(nodes), a, b, inc, k, KthT(tree, a, b, inc, k))
\* the first is the next one, and each further one is the next after the one before
Chained == \A a \in Bounds, inc \in BOOLEAN, k \in 1..MaxK :
               LET r == KthT(tree, a, <<>>, inc, k)
                   s == KthT(tree, a, <<>>, inc, k + 1) IN
               /\ k = 1 => r = NextT(tree, a, <<>>, inc)
               /\ r.found => s = NextT(tree, r.o, <<>>, FALSE)
\* pruning leaves no node without children that had some, and takes no more than it must
PruneRight == \A o \in nodes :
    LET p == Pruned(nodes, o) IN
    /\ p \subseteq Removed(nodes, o) /\ PrefixClosed(p)
    /\ LeavesPC(p) \subseteq LeavesPC(nodes)
    /\ LeavesPC(p) = LeavesPC(nodes) \cap Removed(nodes, o)
Trees == {ns \in SUBSET U : PrefixClosed(ns)}
Case(ns, op, o) == [t |-> [Pre |-> SetToSeq(Leaves(ns)), Op |-> op, O |-> o]]
Cases == UNION {{Case(ns, "prune", o) : o \in ns} : ns \in Trees} \cup {Case(ns, "kth", <<>>) : ns \in Trees}
Write == IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, <<[bounds |-> SetToSeq(Bounds)]>> \o SetToSeq(Cases)) ELSE TRUE
Done == Write /\ TLCGet("stats").distinct = Cardinality(Trees)
=============================================================================
