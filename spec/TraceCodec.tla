----------------------------- MODULE TraceCodec -----------------------------
(* Judges recorded codec calls (C01-C07) against Wire.  A session is a      *)
(* sequence of independent calls; a state of this specification is a        *)
(* position in a session, and each step is one call that the codec          *)
(* specification allows.                                                    *)
EXTENDS Scale, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ses, at
vars == <<ses, at>>

(* C01 *)
RoundTripped(e) ==
    \/ ~e.ok
    \/ e.hok /\ e.bok /\ (Encodable(e.p) => Norm(e.q) = Norm(e.p))

(* C02 *)
ExactBytes(e) == e.ok /\ Encodable(e.p) => e.b = EncPdu(e.p)

\* the same of a message too long to hold
LongBytes(e) == e.ok /\ Encodable(e.p) => LongRight(e.p, e.pl, e.n, e.x)

(* C03 *)
RefusedRight(e) == ~e.pan /\ e.ok = Encodable(e.p)
LongRefusedRight(e) == ~e.pan /\ e.ok = (Encodable(e.p) /\ LongFits(e.p, e.pl, e.n))

(* C04 *)
HeaderRight(e) == /\ e.ok = HeaderOK(e.b)
                  /\ e.ok => e.h = DecHeader(e.b).v
SweepRight(e) == \A v \in 0..255 : e.oks[v + 1] = HeaderOK([e.b EXCEPT ![e.pos] = v])

(* C05 *)
PayloadRight(e) ==
    LET r == DecPayload(e.tag, e.flags, e.size, e.b) IN
    /\ e.ok = r.ok
    /\ e.ok => NormPayload(e.q) = NormPayload(r.v)

(* C06: it returns, and allocates no more than a multiple of its input      *)
AllocFactor == 128
AllocBaseKiB == 64
Survives(e) == ~e.pan /\ e.kib <= AllocBaseKiB + e.n \div (1024 \div AllocFactor)

(* C07 *)
SameAsPlain(e) == /\ e.ok1 = e.ok2 /\ e.pan1 = e.pan2
                  /\ e.ok1 => e.r1 = e.r2

Accept(e) ==
    CASE e.e = "rt"  -> RoundTripped(e)
      [] e.e = "enc" -> ExactBytes(e)
      [] e.e = "big" -> LongBytes(e)
      [] e.e = "ref" -> RefusedRight(e)
      [] e.e = "lref" -> LongRefusedRight(e)
      [] e.e = "hdr" -> HeaderRight(e)
      [] e.e = "hsw" -> SweepRight(e)
      [] e.e = "pay" -> PayloadRight(e)
      [] e.e = "tot" -> Survives(e)
      [] e.e = "dbg" -> SameAsPlain(e)
      [] OTHER -> FALSE      \* "crash", "hang": no call of the specification ends so

Init == ses \in 1..Len(Sessions) /\ at = 1
Next == /\ at <= Len(Sessions[ses].ev)
        /\ IF Accept(Sessions[ses].ev[at]) THEN TRUE ELSE PrintT(<<"REJECT", ses, at>>)
        /\ at' = at + 1 /\ ses' = ses
Spec == Init /\ [][Next]_vars
=============================================================================
