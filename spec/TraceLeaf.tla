------------------------------ MODULE TraceLeaf ------------------------------
(* Judges next-node searches (C14) and leaf traversals (C15) against the    *)
(* tree that the public fields showed just before: `snap` sets the tree,    *)
(* the calls must not change it.                                            *)
EXTENDS OidTree, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at, leaves
vars == <<ses, at, nodes, data, leaves>>
Ev == Sessions[ses].ev[at]

SnapOids(e) == {e.dump[i].o : i \in 1..Len(e.dump)}

(* C14: the answer r for the bounds a and b is NextLeaf(nodes, a, b, inc)   *)
NextIs(a, b, inc, r) ==
    /\ ~r.pan
    /\ LET c == {o \in leaves : InRange(o, a, b, inc)} IN
       IF ~r.found THEN c = {}
       ELSE r.known /\ r.o \in c /\ \A k \in c : k = r.o \/ OidLess(r.o, k)
NextRight(e) == NextIs(e.a, e.b, e.i, e)
\* all end bounds for one start
NextsRight(e) == \A i \in 1..Len(e.rs) : NextIs(e.a, e.rs[i].b, e.i, e.rs[i])

(* C15 *)
WalkRight(e) ==
    /\ ~e.pan
    /\ Increasing([i \in 1..Len(e.vs) |-> e.vs[i].o])
    /\ {e.vs[i].o : i \in 1..Len(e.vs)} = leaves
    /\ \A i \in 1..Len(e.vs) : e.vs[i].same /\ e.vs[i].after = e.vs[i].o
ChainRight(e) ==
    /\ ~e.pan
    /\ Increasing(e.os)
    /\ {e.os[i] : i \in 1..Len(e.os)} = leaves

Accept(e) == CASE e.e = "snap"  -> TRUE
               [] e.e = "next"  -> NextRight(e)
               [] e.e = "nexts" -> NextsRight(e)
               [] e.e = "walk"  -> WalkRight(e)
               [] e.e = "chain" -> ChainRight(e)
               [] OTHER -> FALSE

Init == ses \in 1..Len(Sessions) /\ at = 1 /\ TreeInit /\ leaves = {}
Next == /\ at <= Len(Sessions[ses].ev)
        /\ IF Accept(Ev) THEN TRUE ELSE PrintT(<<"REJECT", ses, at>>)
        /\ nodes' = IF Ev.e = "snap" THEN SnapOids(Ev) ELSE nodes
        /\ leaves' = IF Ev.e = "snap"
                     THEN IF PrefixClosed(nodes') THEN LeavesPC(nodes') ELSE Leaves(nodes')
                     ELSE leaves
        /\ data' = data /\ at' = at + 1 /\ ses' = ses
Spec == Init /\ [][Next]_vars
=============================================================================
