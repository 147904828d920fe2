------------------------------- MODULE OidTree -------------------------------
(* The OID tree as a prefix-closed set of non-empty OIDs (the root, <<>>,   *)
(* is always there and not listed) with a datum per node, 0 being none.     *)
EXTENDS Oid, FiniteSets

VARIABLES nodes, data

Ancestry(o) == {SubSeq(o, 1, i) : i \in 1..Len(o)}
Under(o, ns) == {m \in ns : IsPrefixOf(o, m)}

(*************************** pure part **************************************)
Present(ns, o) == o = <<>> \/ o \in ns
IsNew(ns, o) == o # <<>> /\ o \notin ns
Added(ns, o) == ns \cup Ancestry(o)
Removed(ns, o) == IF o = <<>> THEN ns ELSE ns \ Under(o, ns)

Leaves(ns) == {m \in ns : \A k \in ns : k = m \/ ~IsPrefixOf(m, k)}

\* the same for a prefix-closed set, without comparing every pair
LeavesPC(ns) == ns \ {SubSeq(m, 1, Len(m) - 1) : m \in ns}

InRange(o, a, b, inc) == /\ OidLess(a, o) \/ (inc /\ o = a)
                         /\ b = <<>> \/ OidLess(o, b)
Least(S) == CHOOSE m \in S : \A k \in S : k = m \/ OidLess(m, k)
Candidates(ns, a, b, inc) == {o \in Leaves(ns) : InRange(o, a, b, inc)}
\* [found |-> BOOLEAN, o |-> OID]
NextLeaf(ns, a, b, inc) ==
    LET c == Candidates(ns, a, b, inc) IN
    IF c = {} THEN [found |-> FALSE, o |-> <<>>] ELSE [found |-> TRUE, o |-> Least(c)]

RECURSIVE SortedOids(_)
SortedOids(S) == IF S = {} THEN <<>>
                 ELSE LET m == Least(S) IN <<m>> \o SortedOids(S \ {m})
Walk(ns) == SortedOids(Leaves(ns))

Increasing(os) == \A i \in 1..(Len(os) - 1) : OidLess(os[i], os[i + 1])
PrefixClosed(ns) == \A o \in ns : Ancestry(o) \subseteq ns

(*************************** actions ****************************************)
TreeInit == nodes = {} /\ data = <<>>

\* the caller may store d in a node that the call has just made
Add(o, new, d) ==
    /\ new = IsNew(nodes, o)
    /\ IF new
       THEN /\ nodes' = Added(nodes, o)
            /\ data' = [n \in nodes' |-> IF n = o THEN d ELSE IF n \in nodes THEN data[n] ELSE 0]
       ELSE UNCHANGED <<nodes, data>>

Get(o, found, d) ==
    /\ found = Present(nodes, o)
    /\ found /\ o # <<>> => d = data[o]
    /\ UNCHANGED <<nodes, data>>

RemoveSub(o, ok) ==
    /\ ok = (o \in nodes)
    /\ nodes' = Removed(nodes, o)
    /\ data' = [n \in nodes' |-> data[n]]

Clear == nodes' = {} /\ data' = <<>>
=============================================================================
