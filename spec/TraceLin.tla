------------------------------ MODULE TraceLin ------------------------------
(* Judges recorded concurrent histories of an OID tree (C16).  Between the  *)
(* call and the return of an operation there is one moment (Lin) at which   *)
(* it takes effect on the tree of the specification with the recorded       *)
(* result.  A history is accepted when some choice of these moments leads   *)
(* to its end, where the specification's tree is the one the code shows.    *)
EXTENDS OidTree, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at, pend    \* pend: process -> 0 (none), k (called at event k), -k (took effect)
vars == <<ses, at, nodes, data, pend>>
Ev == Sessions[ses].ev[at]
Procs == 1..8

\* the operation e, with its recorded result, as one atomic action
Effect(e) ==
    CASE e.op = "add"   -> Add(e.o, e.yes, 0)
      [] e.op = "get"   -> Get(e.o, e.yes, IF e.o \in nodes THEN data[e.o] ELSE 0)
      [] e.op = "rem"   -> RemoveSub(e.o, e.yes)
      [] e.op = "clear" -> Clear
      [] e.op = "next"  ->
            /\ LET c == {o \in LeavesPC(nodes) : InRange(o, e.a, e.b, e.i)} IN
               IF e.yes THEN c # {} /\ (e.known => e.r \in c /\ \A k \in c : k = e.r \/ OidLess(e.r, k))
               ELSE c = {}
            /\ UNCHANGED <<nodes, data>>
      [] e.op = "walk"  ->
            /\ Increasing(e.walk) /\ {e.walk[i] : i \in 1..Len(e.walk)} = LeavesPC(nodes)
            /\ UNCHANGED <<nodes, data>>

Invoke == /\ Ev.e = "inv" /\ pend[Ev.proc] = 0
          /\ pend' = [pend EXCEPT ![Ev.proc] = at]
          /\ at' = at + 1 /\ UNCHANGED <<nodes, data>>
Return == /\ Ev.e = "ret" /\ ~Ev.pan /\ pend[Ev.proc] < 0
          /\ pend' = [pend EXCEPT ![Ev.proc] = 0]
          /\ at' = at + 1 /\ UNCHANGED <<nodes, data>>
Final == /\ Ev.e = "final"
         /\ LET os == [i \in 1..Len(Ev.dump) |-> Ev.dump[i].o] IN
            /\ Increasing(os) /\ {os[i] : i \in 1..Len(os)} = nodes
            /\ \A i \in 1..Len(os) : Ev.dump[i].p
         /\ PrintT(<<"DONE", ses>>)
         /\ at' = at + 1 /\ UNCHANGED <<nodes, data, pend>>
Lin(p) == /\ pend[p] > 0
          /\ Effect(Sessions[ses].ev[pend[p]])
          /\ pend' = [pend EXCEPT ![p] = -@]
          /\ at' = at

Init == ses \in 1..Len(Sessions) /\ at = 1 /\ TreeInit /\ pend = [p \in Procs |-> 0]
Next == /\ at <= Len(Sessions[ses].ev)
        /\ ses' = ses
        /\ Invoke \/ Return \/ Final \/ \E p \in Procs : Lin(p)
Spec == Init /\ [][Next]_vars
=============================================================================
