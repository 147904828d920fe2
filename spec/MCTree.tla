------------------------------- MODULE MCTree -------------------------------
(* The OID tree over a small universe, exhaustively: the tree as built      *)
(* (TreeImpl) against the prefix-closed set (OidTree) in every reachable    *)
(* state and for every operation and every pair of bounds; and every        *)
(* transition of this graph as a case for the real code.                    *)
EXTENDS TreeImpl, TLC, Json, IOUtils, FiniteSetsExt

CONSTANTS Subs, Depth,      \* sub-identifiers, depth of the tree
          Off,              \* sub-identifiers that only bounds use
          Datum             \* what callers store: 0 (nothing; the smaller model) or 1
VARIABLE tree

W(S) == {W32(n) : n \in S}
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
U == Seqs(W(Subs), Depth)
Bounds == {<<>>} \cup U \cup {Append(o, w) : o \in {<<>>} \cup U, w \in W(Off)}

Init == TreeInit /\ tree = <<>>

DoAdd(o) ==
    LET new == o # <<>> /\ ~GetT(tree, o).found IN
    /\ Add(o, new, Datum)                   \* fails (deadlock) if the implementation's answer is wrong
    /\ tree' = IF new THEN AddT(tree, o, Datum) ELSE tree
DoRem(o) ==
    LET ok == o # <<>> /\ GetT(tree, o).found IN
    /\ RemoveSub(o, ok)
    /\ tree' = IF ok THEN RemT(tree, o) ELSE tree
DoClear == Clear /\ tree' = <<>>
Next == \/ \E o \in U \cup {<<>>} : DoAdd(o) \/ DoRem(o)
        \/ DoClear
Spec == Init /\ [][Next]_<<nodes, data, tree>>

(* C13 *)
Refines == /\ NodesOf(tree, <<>>) = nodes
           /\ SortedT(tree)
           /\ PrefixClosed(nodes)
           /\ LeavesPC(nodes) = Leaves(nodes)
AnswersGet == \A o \in U : /\ GetT(tree, o).found = Present(nodes, o)
                           /\ GetT(tree, o).found => GetT(tree, o).d = data[o]
EveryOpPossible == \A o \in U : ENABLED DoAdd(o) /\ ENABLED DoRem(o)
(* C14 *)
NextRight == \A a \in Bounds, b \in Bounds, inc \in BOOLEAN :
                NextT(tree, a, b, inc) = NextLeaf(nodes, a, b, inc)
(* C15 *)
WalkRight == /\ WalkT(tree, <<>>) = Walk(nodes)
             /\ Increasing(WalkT(tree, <<>>))
RECURSIVE Chain(_, _)
Chain(a, n) == LET r == NextT(tree, a, <<>>, FALSE) IN
               IF ~r.found \/ n = 0 THEN <<>> ELSE <<r.o>> \o Chain(r.o, n - 1)
ChainRight == Chain(<<>>, Cardinality(U) + 1) = Walk(nodes)

(* the graph as cases; Pre is a set of leaves, which the driver adds        *)
Trees == {ns \in SUBSET U : PrefixClosed(ns)}
Case(ns, op, o) == [t |-> [Pre |-> SetToSeq(Leaves(ns)), Op |-> op, O |-> o]]
OpCases == {Case(ns, op, o) : ns \in Trees, op \in {"add", "rem"}, o \in U \cup {<<>>}}
AllCases == {Case(ns, op, <<>>) : ns \in Trees, op \in {"clear", "gets", "walk"}}
Write == IF "OUT" \in DOMAIN IOEnv
         THEN ndJsonSerialize(IOEnv.OUT, <<[bounds |-> SetToSeq(Bounds)]>> \o SetToSeq(OpCases) \o SetToSeq(AllCases)) ELSE TRUE
Done == Write /\ (Datum = 0 => TLCGet("stats").distinct = Cardinality(Trees))    \* every tree was reached
=============================================================================
