---------------------------- MODULE TraceStruct -----------------------------
(* Judges recorded struct texts and line diffs (C22).                       *)
EXTENDS Struct, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at
vars == <<ses, at>>

TextRight(e) == ~e.pan /\ e.s = StructText(e.v, e.depth)
DiffRight(e) == ~e.pan /\ e.s = LineDiff(e.a, e.b)
StructsRight(e) == ~e.pan /\ e.s = LineDiff(StructText(e.v, 0), StructText(e.w, 0))

Accept(e) == CASE e.e = "stext"  -> TextRight(e)
               [] e.e = "ldiff"  -> DiffRight(e)
               [] e.e = "sdiff"  -> StructsRight(e)
               [] OTHER -> FALSE

Init == ses \in 1..Len(Sessions) /\ at = 1
Next == /\ at <= Len(Sessions[ses].ev)
        /\ IF Accept(Sessions[ses].ev[at]) THEN TRUE ELSE PrintT(<<"REJECT", ses, at>>)
        /\ at' = at + 1 /\ ses' = ses
Spec == Init /\ [][Next]_vars
=============================================================================
