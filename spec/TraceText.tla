----------------------------- MODULE TraceText ------------------------------
(* Judges recorded hex dumps and diffs (C17), texts (C18), vocabulary (C19) *)
(* and debug logs (C20).                                                    *)
EXTENDS Hex, Show, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at
vars == <<ses, at>>

(* C17 *)
SubRight(e) ==
    /\ ~e.pan
    /\ IF RangeOK(e.i1, e.i2, e.n) THEN TrimLines(e.s) = DumpLines(e.prefix, e.i1, e.d)
       ELSE e.s = RangeError(e.prefix, e.i1, e.i2, e.n)
DiffRight(e) ==
    /\ ~e.pan
    /\ IF e.a = e.b THEN e.s = <<>> ELSE TrimLines(e.s) = DiffLines(e.a, e.b)

\* the same of dumps too long to hold, line by line
FarSubRight(e) ==
    /\ ~e.pan /\ e.count = FarDumpCount(e.i1, e.i2)
    /\ \A i \in 1..Len(e.lines) : TrimRight(e.lines[i].s) = FarDumpLine(e.prefix, e.base, e.i1, e.i2, e.lines[i].k)
RowRight(e) == ~e.pan /\ TrimRight(e.s) = TrimRight(e.prefix \o WordRow(e.o, e.d))
FarDiffRight(e) ==
    LET eds == {e.eds[i] : i \in 1..Len(e.eds)} IN
    /\ ~e.pan /\ e.count = FarDiffCount(e.base, eds, e.la, e.lb)
    /\ \A i \in 1..Len(e.lines) : TrimRight(e.lines[i].s) = FarDiffLine(e.base, eds, e.la, e.lb, e.lines[i].k)

(* C18; a leading '>' marks what the builder held before                    *)
Appended(f, t) == f = <<62>> \o t
ValRight(e) == ~e.pan /\ Appended(e.s, ValueText(e.t, e.v))
VbRight(e) == LET t == VarbindText(e.vb) IN ~e.pan /\ e.s = t /\ Appended(e.f, t)
RngRight(e) == LET t == RangeText(e.r) IN ~e.pan /\ e.s = t /\ Appended(e.f, t)
IpRight(e) == LET t == IpText(e.a) IN ~e.pan /\ e.s = t /\ Appended(e.f, t)
PduRight(e) == ~e.pan /\ e.s = PduText(e.p, e.size, e.depth)

(* C19 *)
PTagRight(e) == /\ ~e.pan /\ e.known = (e.n \in PduTypes)
                /\ IF e.n \in PduTypes THEN e.s = PduCodes[e.n] ELSE Shows(e.s, e.n)
ATagRight(e) == /\ ~e.pan /\ e.known = (e.n \in TagNumbers)
                /\ (e.n # 48 => e.vt = (e.n \in ValueTags))
                /\ IF e.n \in TagNumbers THEN e.s = TagCodes[e.n] ELSE Shows(e.s, e.n)
ReasonRight(e) == ~e.pan /\ IF e.n \in ReasonNumbers THEN e.s = ReasonCodes[e.n] ELSE Shows(e.s, e.n)
FlagsRight(e) == ~e.pan /\ FlagsText(e.n, e.s) /\ e.f = e.s
ValidRight(e) == \A i \in 1..Len(e.vs) : LET x == e.vs[i] IN
                    ~x.pan /\ x.ok = (e.n \in ValueTags /\ (ValueKind(e.n) = "void" \/ x.v = ValueKind(e.n)))
NafRight(e) == ~e.pan /\ \A f \in 0..255 : Bits(e.bad[f + 1]) = Bits(f) \ AllowedBits(e.n)
ErrsRight(e) == ~e.pan /\ \A lo \in 0..255 :
                    LET n == e.hi * 256 + lo  IN
                    IF n \in ErrorNumbers THEN e.ss[lo + 1] = ErrorCodes[n] ELSE Shows(e.ss[lo + 1], n)
ConstRight(e) ==
    CASE e.k = "ptag" -> e.v = NumberIn(PduTable, e.name)
      [] e.k = "flag" -> e.v = (IF e.name = "None" THEN 0 ELSE NumberIn(FlagTable, e.name))
      [] e.k = "reason" -> e.v = NumberIn(ReasonTable, e.name)
      [] e.k = "atag" -> e.v = NumberIn(TagTable, IF e.name = "Gauge32" THEN "Unsigned32" ELSE e.name)
      [] e.k = "err" -> e.v = NumberIn(ErrorTable, e.name)
MibRight(e) == e.name \in MibNames => e.o = MibOid(e.name)
MibsRight(e) == MibNames \subseteq {e.names[i] : i \in 1..Len(e.names)}
\* C21: one number at a time
ErrRight(e) == ~e.pan /\ IF e.n \in ErrorNumbers THEN e.s = ErrorCodes[e.n] ELSE Shows(e.s, e.n)

(* C20 *)
Notice == [encode  |-> Codes("!!! Failed to encode pdu"),
           header  |-> Codes("!!! Failed to decode pdu header"),
           payload |-> Codes("!!! Failed to decode pdu payload")]
\* a row of any dump in the log shows what the message has there
RowShown(r, data) == r.b = IF "at" \in DOMAIN r THEN r.at ELSE SubSeq(data, r.o + 1, Min2(r.o + Len(r.b), Len(data)))
LogRight(e) ==
    /\ ~e.pan
    /\ e.pct = 0 /\ e.bad = 0
    /\ (~e.ok) = IsPrefixOf(Notice[e.op], e.last)
    /\ e.notices = IF e.ok THEN 0 ELSE 1
    /\ (e.op # "encode" \/ e.ok) => /\ e.found /\ e.dump = e.data
                                    /\ \A i \in 1..Len(e.rows) : RowShown(e.rows[i], e.data)
\* the console shows every message on its own, unchanged
RECURSIVE LinesFrom(_, _, _)
LinesFrom(ms, i, at0) ==      \* where the output must end if message i begins at at0
    IF i > Len(ms) THEN <<>> ELSE <<at0>> \o LinesFrom(ms, i + 1, at0 + Len(ms[i]) + 1)
ConsoleRight(e) ==
    LET st == LinesFrom(e.msgs, 1, 1) IN
    /\ Len(e.out) = IF Len(e.msgs) = 0 THEN 0 ELSE st[Len(st)] + Len(e.msgs[Len(st)])
    /\ \A i \in 1..Len(st) :
         /\ SubSeq(e.out, st[i], st[i] + Len(e.msgs[i]) - 1) = e.msgs[i]
         /\ e.out[st[i] + Len(e.msgs[i])] = 10

Accept(e) ==
    CASE e.e = "sub"    -> SubRight(e)
      [] e.e = "diff"   -> DiffRight(e)
      [] e.e = "farsub" -> FarSubRight(e)
      [] e.e = "row"    -> RowRight(e)
      [] e.e = "fardiff" -> FarDiffRight(e)
      [] e.e = "val"    -> ValRight(e)
      [] e.e = "vbt"    -> VbRight(e)
      [] e.e = "rng"    -> RngRight(e)
      [] e.e = "ip"     -> IpRight(e)
      [] e.e = "pdu"    -> PduRight(e)
      [] e.e = "ptag"   -> PTagRight(e)
      [] e.e = "atag"   -> ATagRight(e)
      [] e.e = "reason" -> ReasonRight(e)
      [] e.e = "flags"  -> FlagsRight(e)
      [] e.e = "valid"  -> ValidRight(e)
      [] e.e = "naf"    -> NafRight(e)
      [] e.e = "errs"   -> ErrsRight(e)
      [] e.e = "const"  -> ConstRight(e)
      [] e.e = "mib"    -> MibRight(e)
      [] e.e = "mibs"   -> MibsRight(e)
      [] e.e = "log"    -> LogRight(e)
      [] e.e = "console" -> ConsoleRight(e)
      [] e.e = "err"    -> ErrRight(e)
      [] e.e = "args"   -> e.same
      [] OTHER -> FALSE

Init == ses \in 1..Len(Sessions) /\ at = 1
Next == /\ at <= Len(Sessions[ses].ev)
        /\ IF Accept(Sessions[ses].ev[at]) THEN TRUE ELSE PrintT(<<"REJECT", ses, at>>)
        /\ at' = at + 1 /\ ses' = ses
Spec == Init /\ [][Next]_vars
=============================================================================
