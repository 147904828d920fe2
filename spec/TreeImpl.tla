------------------------------ MODULE TreeImpl ------------------------------
(* The OID tree as it is built (oid/node.go): a node holds its children     *)
(* sorted by sub-identifier; a child is found by binary search; the         *)
(* next-node search descends with two flags that say whether the path so    *)
(* far is the beginning of each bound.  A tree is the sequence of its       *)
(* root's children, a node is [s |-> sub-identifier, k |-> children,        *)
(* d |-> datum].                                                            *)
EXTENDS OidTree

Leaf(s, d) == [s |-> s, k |-> <<>>, d |-> d]

(* sort.Search: the least index (from 1) whose child is not below s         *)
RECURSIVE BinSearch(_, _, _, _)
BinSearch(kids, s, lo, hi) ==       \* invariant: kids[i] < s for i < lo, kids[i] >= s for i >= hi
    IF lo >= hi THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF WLess(kids[m].s, s) THEN BinSearch(kids, s, m + 1, hi) ELSE BinSearch(kids, s, lo, m)
Find(kids, s) == BinSearch(kids, s, 1, Len(kids) + 1)
Has(kids, s) == LET i == Find(kids, s) IN i <= Len(kids) /\ kids[i].s = s

InsertAtPos(kids, i, n) == SubSeq(kids, 1, i - 1) \o <<n>> \o SubSeq(kids, i, Len(kids))
DeleteAtPos(kids, i) == SubSeq(kids, 1, i - 1) \o SubSeq(kids, i + 1, Len(kids))

RECURSIVE GetT(_, _)                \* the node at o (non-empty) or none
GetT(kids, o) ==
    IF ~Has(kids, o[1]) THEN [found |-> FALSE]
    ELSE LET n == kids[Find(kids, o[1])] IN
         IF Len(o) = 1 THEN [found |-> TRUE, d |-> n.d] ELSE GetT(n.k, Tail(o))

RECURSIVE AddT(_, _, _)             \* o non-empty and absent
AddT(kids, o, d) ==
    LET i == Find(kids, o[1]) IN
    IF Has(kids, o[1]) THEN [kids EXCEPT ![i].k = AddT(@, Tail(o), d)]
    ELSE InsertAtPos(kids, i, IF Len(o) = 1 THEN Leaf(o[1], d)
                              ELSE [s |-> o[1], k |-> AddT(<<>>, Tail(o), d), d |-> 0])

RECURSIVE RemT(_, _)                \* o non-empty and present
RemT(kids, o) ==
    LET i == Find(kids, o[1]) IN
    IF Len(o) = 1 THEN DeleteAtPos(kids, i) ELSE [kids EXCEPT ![i].k = RemT(@, Tail(o))]

(* iterate of getNextNode: node with children kids, at depth ind, path is   *)
(* the path to it; returns the leaf found or none                           *)
None == [found |-> FALSE, o |-> <<>>]
RECURSIVE IterT(_, _, _, _, _, _, _, _)
RECURSIVE FirstOf(_, _, _, _, _, _, _, _, _)
IterT(kids, path, ind, eq1, eq2, o1, o2, inc) ==
    IF kids = <<>> THEN
        IF /\ ~eq1 \/ (inc /\ ind = Len(o1))
           /\ ~eq2 \/ ind < Len(o2)
           /\ path # <<>>
        THEN [found |-> TRUE, o |-> path] ELSE None
    ELSE FirstOf(kids, 1, path, ind, eq1, eq2, o1, o2, inc)
FirstOf(kids, i, path, ind, eq1, eq2, o1, o2, inc) ==
    IF i > Len(kids) THEN None
    ELSE LET c == kids[i]
             skip == \/ eq1 /\ ind < Len(o1) /\ WLess(c.s, o1[ind + 1])
                     \/ eq2 /\ (ind >= Len(o2) \/ WLess(o2[ind + 1], c.s))
             more1 == ind < Len(o1)
             more2 == ind < Len(o2)
             r == IF skip THEN None
                  ELSE IterT(c.k, Append(path, c.s), IF more1 \/ more2 THEN ind + 1 ELSE ind,
                             more1 /\ eq1 /\ c.s = o1[ind + 1], more2 /\ eq2 /\ c.s = o2[ind + 1], o1, o2, inc)
         IN IF r.found THEN r ELSE FirstOf(kids, i + 1, path, ind, eq1, eq2, o1, o2, inc)
NextT(kids, o1, o2, inc) == IterT(kids, <<>>, 0, TRUE, o2 # <<>>, o1, o2, inc)

RECURSIVE WalkT(_, _)
WalkT(kids, path) ==
    FoldLeft(LAMBDA acc, c : acc \o (IF c.k = <<>> THEN <<Append(path, c.s)>> ELSE WalkT(c.k, Append(path, c.s))),
             <<>>, kids)

(* what such a tree means                                                   *)
RECURSIVE NodesOf(_, _)
NodesOf(kids, path) ==
    UNION {{Append(path, kids[i].s)} \cup NodesOf(kids[i].k, Append(path, kids[i].s)) : i \in 1..Len(kids)}
RECURSIVE SortedT(_)
SortedT(kids) == /\ \A i \in 1..(Len(kids) - 1) : WLess(kids[i].s, kids[i + 1].s)
                 /\ \A i \in 1..Len(kids) : SortedT(kids[i].k)
=============================================================================
