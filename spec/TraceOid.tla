------------------------------ MODULE TraceOid ------------------------------
(* Judges recorded OID comparisons (C10), OID texts and parses (C12)  *)
(* and these in histories and concurrently (C21).                           *)
EXTENDS Text, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at
vars == <<ses, at>>

CmpRight(e) ==
    LET c == OidCompare(e.a, e.b) IN
    /\ ~e.pan
    /\ e.cmp = c
    /\ e.lt = (c < 0) /\ e.le = (c <= 0) /\ e.eq = (c = 0)
    /\ e.ne = (c # 0) /\ e.ge = (c >= 0) /\ e.gt = (c > 0)
    /\ e.pre = IsPrefixOf(e.b, e.a)

TextRight(e) == ~e.pan /\ e.s = OidCodes(e.o) /\ e.f = <<120>> \o OidCodes(e.o)
ParseRight(e) == LET r == OidParse(e.s) IN e.ok = r.ok /\ (e.ok => e.o = r.o)

\* C21
CloneRight(e) == ~e.pan /\ e.o = e.a
CatRight(e) == ~e.pan /\ e.o = e.a \o e.b

Accept(e) == CASE e.e = "cmp"   -> CmpRight(e)
               [] e.e = "text"  -> TextRight(e)
               [] e.e = "parse" -> ParseRight(e)
               [] e.e = "clone" -> CloneRight(e)
               [] e.e = "cat"   -> CatRight(e)
               [] e.e = "args"  -> e.same
               [] OTHER -> FALSE

Init == ses \in 1..Len(Sessions) /\ at = 1
Next == /\ at <= Len(Sessions[ses].ev)
        /\ IF Accept(Sessions[ses].ev[at]) THEN TRUE ELSE PrintT(<<"REJECT", ses, at>>)
        /\ at' = at + 1 /\ ses' = ses
Spec == Init /\ [][Next]_vars
=============================================================================
