------------------------------ MODULE TraceBulk ------------------------------
(* Judges recorded searches for the k-th leaf and pruning removals (C23).   *)
(* `snap` sets the tree to what the public fields show.                     *)
EXTENDS Bulk, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at, leaves
vars == <<ses, at, nodes, data, leaves>>
Ev == Sessions[ses].ev[at]

SnapOids(d) == {d[i].o : i \in 1..Len(d)}
DataOf(d, ns) == [o \in ns |-> LET i == CHOOSE j \in 1..Len(d) : d[j].o = o IN d[i].d]
Shows(d, ns) ==
    LET os == [i \in 1..Len(d) |-> d[i].o] IN
    /\ Increasing(os)
    /\ {os[i] : i \in 1..Len(os)} = ns
    /\ \A i \in 1..Len(d) : d[i].p /\ d[i].d = data[d[i].o]
After(e) == RemoveWith(nodes, e.o, e.prune)

Accept(e) == CASE e.e = "snap" -> TRUE
               [] e.e = "kth"  -> \A i \in 1..Len(e.rs) : LET r == e.rs[i] IN
                                      ~r.pan /\ (r.found => r.known) /\ KthIs(leaves, e.a, e.b, e.i, r.k, r)
               [] e.e = "remp" -> ~e.pan /\ e.same /\ e.ok = (e.o \in nodes) /\ Shows(e.dump, After(e))
               [] OTHER -> FALSE

Init == ses \in 1..Len(Sessions) /\ at = 1 /\ TreeInit /\ leaves = {}
Next == /\ at <= Len(Sessions[ses].ev)
        /\ IF Accept(Ev) THEN TRUE ELSE PrintT(<<"REJECT", ses, at>>)
        /\ nodes' = CASE Ev.e = "snap" -> SnapOids(Ev.dump) [] Ev.e = "remp" -> After(Ev) [] OTHER -> nodes
        /\ data' = CASE Ev.e = "snap" /\ Ev.marked -> DataOf(Ev.dump, nodes') [] Ev.e = "remp" -> [o \in nodes' |-> data[o]] [] OTHER -> data
        /\ leaves' = IF nodes' = nodes THEN leaves ELSE IF PrefixClosed(nodes') THEN LeavesPC(nodes') ELSE Leaves(nodes')
        /\ at' = at + 1 /\ ses' = ses
Spec == Init /\ [][Next]_vars
=============================================================================
