------------------------------ MODULE TraceTree ------------------------------
(* Judges recorded histories of a sequential OID tree (C13): every call     *)
(* must be an action of OidTree, and where the whole tree was recorded, the *)
(* public fields must show the tree of the specification.                   *)
EXTENDS OidTree, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at
vars == <<ses, at, nodes, data>>

Ev == Sessions[ses].ev[at]

\* dump: the nodes in depth-first order of the Children lists
Shows(dump, ns, dt) ==
    LET os == [i \in 1..Len(dump) |-> dump[i].o] IN
    /\ Increasing(os)                     \* also: no node twice
    /\ {os[i] : i \in 1..Len(os)} = ns
    /\ \A i \in 1..Len(dump) : dump[i].p /\ dump[i].d = dt[dump[i].o]

\* a tree made by adding the leaves os (in this order, all new) with data 1, 2, ...
Made(os) ==
    LET ns == UNION {Ancestry(os[i]) : i \in 1..Len(os)}
        made(n) == {i \in 1..Len(os) : os[i] = n}
    IN /\ nodes = {}
       /\ nodes' = ns
       /\ data' = [n \in ns |-> IF made(n) = {} THEN 0 ELSE CHOOSE i \in made(n) : TRUE]
Gets(rs) == /\ \A i \in 1..Len(rs) : LET r == rs[i] IN
                 /\ ~r.pan /\ r.same
                 /\ r.found = Present(nodes, r.o)
                 /\ r.found /\ r.o # <<>> => r.d = data[r.o]
            /\ UNCHANGED <<nodes, data>>

Call(e) ==
    CASE e.e = "add"   -> ~e.pan /\ (e.new => e.d0 = 0) /\ Add(e.o, e.new, e.d)
      [] e.e = "get"   -> ~e.pan /\ e.same /\ Get(e.o, e.found, e.d)
      [] e.e = "rem"   -> ~e.pan /\ RemoveSub(e.o, e.ok)
      [] e.e = "clear" -> ~e.pan /\ Clear
      [] e.e = "pre"   -> ~e.pan /\ Made(e.os)
      [] e.e = "gets"  -> Gets(e.rs)
      [] OTHER -> FALSE /\ UNCHANGED <<nodes, data>>

Init == ses \in 1..Len(Sessions) /\ at = 1 /\ TreeInit
Step == Call(Ev) /\ ("dump" \in DOMAIN Ev => Shows(Ev.dump, nodes', data'))
Next == /\ at <= Len(Sessions[ses].ev)
        /\ ses' = ses
        /\ IF ENABLED Step THEN Step /\ at' = at + 1
           ELSE PrintT(<<"REJECT", ses, at>>) /\ UNCHANGED <<nodes, data>> /\ at' = 1000000
Spec == Init /\ [][Next]_vars
=============================================================================
