---------------------------- MODULE TraceOidHeap ----------------------------
(* Judges histories of Clone, Cat and caller writes over a pool of OIDs     *)
(* (C11).  After every event the contents of all OIDs of the pool are those *)
(* of the heap specification: an object that changes without being written  *)
(* to through its own array is an aliased one.                              *)
EXTENDS OidHeap, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at
vars == <<ses, at, arrs, objs>>
Ev == Sessions[ses].ev[at]

Op(e) ==
    CASE e.e = "new"   -> New(e.c, e.cap)
      [] e.e = "slice" -> Slice(e.src, e.lo, e.hi)
      [] e.e = "clone" -> ~e.pan /\ e.cap >= objs[e.src].len /\ Clone(e.src, e.cap)
      [] e.e = "cat"   -> LET subs == IF e.arg > 0 THEN Content(e.arg) ELSE e.subs IN
                          ~e.pan /\ e.cap >= objs[e.src].len + Len(subs) /\ Cat(e.src, subs, e.cap)
      [] e.e = "write" -> Write(e.src, e.i, e.v)
      [] e.e = "grow"  -> Grow(e.src, e.v, e.cap)
      [] OTHER -> FALSE /\ UNCHANGED heapVars
Step == Op(Ev) /\ Ev.all = Views(arrs', objs')

Init == ses \in 1..Len(Sessions) /\ at = 1 /\ HeapInit
Next == /\ at <= Len(Sessions[ses].ev)
        /\ ses' = ses
        /\ IF ENABLED Step THEN Step /\ at' = at + 1
           ELSE PrintT(<<"REJECT", ses, at>>) /\ UNCHANGED heapVars /\ at' = 1000000
Spec == Init /\ [][Next]_vars
=============================================================================
