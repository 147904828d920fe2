---------------------------- MODULE TraceStream ----------------------------
(* Judges recorded stream sessions (C08).                                  *)
EXTENDS Stream, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at
vars == <<ses, at, queue, phase>>
Ev == Sessions[ses].ev[at]

Op(e) ==
    CASE e.e = "send" -> Send([p |-> e.p, n |-> e.n, dam |-> e.dam])
      [] e.e = "rxh"  -> e.hok /\ TakeHeader(e.h)
      [] e.e = "rxp"  -> TakePayload(e.n, e.ok, IF e.ok THEN e.q ELSE <<>>)
      [] e.e = "eof"  -> e.left = 0 /\ End
      [] OTHER -> FALSE /\ UNCHANGED streamVars

Init == ses \in 1..Len(Sessions) /\ at = 1 /\ StreamInit
Next == /\ at <= Len(Sessions[ses].ev)
        /\ ses' = ses
        /\ IF ENABLED Op(Ev) THEN Op(Ev) /\ at' = at + 1
           ELSE PrintT(<<"REJECT", ses, at>>) /\ UNCHANGED streamVars /\ at' = 1000000
Spec == Init /\ [][Next]_vars
=============================================================================
