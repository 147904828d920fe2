-------------------------------- MODULE Show --------------------------------
(* Text forms of values, varbinds, ranges, addresses and PDUs.              *)
EXTENDS Names

TagText(t) == IF t \in TagNumbers THEN TagCodes[t] ELSE <<63>> \o DecByte(t)
PduTagText(t) == IF t \in PduTypes THEN PduCodes[t] ELSE <<63>> \o DecByte(t)
ReasonText(r) == IF r \in ReasonNumbers THEN ReasonCodes[r] ELSE <<63>> \o DecByte(r)
ErrorText(w) == LET n == w[1] * 256 + w[2] IN
                IF n \in ErrorNumbers THEN ErrorCodes[n] ELSE Codes("Error(") \o DecInt(n) \o <<41>>
BitText(b) == IF b \in DOMAIN FlagCodes THEN FlagCodes[b] ELSE Codes("?0x") \o HexByte(b)
FlagText(f) == LET bits == SetBits(f) IN Join([i \in 1..Len(bits) |-> BitText(bits[i])], <<124>>)

IpText(a) == Join([i \in 1..4 |-> DecByte(a[i])], <<46>>)
OpaqueText(b) == <<123>> \o Join([i \in 1..Len(b) |-> DecByte(b[i])], <<32>>) \o <<125>>

\* void-typed tags accept and hide any value; Sequence and unknown tags accept none
Shown(t, v) == t \in ValueTags /\ (ValueKind(t) = "void" \/ v.k = ValueKind(t))
ValueText(t, v) ==
    IF ~Shown(t, v) THEN <<63>>
    ELSE LET k == ValueKind(t) IN
         CASE k = "i32" -> SDec(v.b)
           [] k \in {"u32", "u64"} -> Dec(v.b)
           [] k = "str" -> v.b
           [] k = "opq" -> OpaqueText(v.b)
           [] k = "oid" -> OidCodes(v.b)
           [] k = "ip"  -> IpText(v.b)
           [] OTHER -> <<>>

VarbindText(vb) == <<123>> \o OidCodes(vb.o) \o <<32>> \o TagText(vb.t) \o <<58, 32>>
                   \o ValueText(vb.t, vb.v) \o <<125>>
RangeText(r) == Codes("{StartOid: ") \o OidCodes(r.s) \o Codes(" EndOid: ") \o OidCodes(r.e)
                \o Codes(" StartIncluded: ") \o DecByte(r.i) \o <<125>>

(* PDUs: one line per field.                                                *)
Indent(depth) == [i \in 1..(4 * Min2(depth, 8)) |-> 32]
Field(depth, name, txt) == NL \o Indent(depth) \o Codes(name) \o <<58, 32>> \o txt
Empty == Codes("<empty>")
OidField(o) == IF o = <<>> THEN Empty ELSE OidCodes(o)

ParamsText(d, q) ==
    CASE q.k = "nil"  -> Codes("<nil>")
      [] q.k = "none" -> <<>>
      [] q.k = "open" -> Field(d, "Timeout", DecByte(q.timeout)) \o Field(d, "Oid", OidField(q.oid))
                         \o Field(d, "Description", q.descr)
      [] q.k = "close" -> Field(d, "Reason", ReasonText(q.reason))
      [] q.k = "reg" -> Field(d, "Timeout", DecByte(q.timeout)) \o Field(d, "Priority", DecByte(q.prio))
                        \o Field(d, "RangeSubid", DecByte(q.rsub)) \o Field(d, "Subtree", OidField(q.oid))
                        \o Field(d, "UpperBound", Dec(q.upper))
      [] q.k = "unreg" -> Field(d, "Priority", DecByte(q.prio))
                        \o Field(d, "RangeSubid", DecByte(q.rsub)) \o Field(d, "Subtree", OidField(q.oid))
                        \o Field(d, "UpperBound", Dec(q.upper))
      [] q.k = "bulk" -> Field(d, "NonRepeaters", SDec(q.nonrep)) \o Field(d, "MaxRepeatitions", SDec(q.maxrep))
      [] q.k = "addcaps" -> Field(d, "Oid", OidField(q.oid)) \o Field(d, "Description", q.descr)
      [] q.k = "remcaps" -> Field(d, "Oid", OidField(q.oid))
      [] q.k = "resp" -> Field(d, "SysUpTime", Dec(q.uptime)) \o Field(d, "Error", ErrorText(q.error))
                         \o Field(d, "Index", SDec(q.index))

ListText(T(_), d, items) ==
    IF items = <<>> THEN Empty
    ELSE FoldLeft(LAMBDA acc, x : acc \o NL \o Indent(d) \o T(x), <<>>, items)

PduText(p, size, d) ==
    Tail(Field(d, "Tag", PduTagText(p.tag)) \o Field(d, "Flags", FlagText(p.flags))
         \o Field(d, "SessionId", Dec(p.sid)) \o Field(d, "TransactionId", Dec(p.tid))
         \o Field(d, "PacketId", Dec(p.pid)) \o Field(d, "PayloadSize", SDec(size))
         \o Field(d, "Context", p.ctx) \o Field(d, "Params", ParamsText(d + 1, p.params))
         \o Field(d, "Ranges", ListText(RangeText, d + 1, p.ranges))
         \o Field(d, "Varbinds", ListText(VarbindText, d + 1, p.vbs)))
=============================================================================
