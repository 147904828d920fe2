-------------------------------- MODULE Wire --------------------------------
(* The AgentX codec (RFC 2741 section 5 and 6, agentx/docs/encoding.txt):   *)
(* what an abstract PDU looks like on the wire, which PDUs can be encoded,  *)
(* which byte strings are headers and payloads and what they denote.        *)
(*                                                                          *)
(* Abstract PDU (the projection the harness logs):                          *)
(*  [tag, flags : 0..255, sid, tid, pid : word, ctx : bytes,                *)
(*   params : [k : kind, ...], ranges : Seq([s, e : OID, i : byte]),        *)
(*   vbs : Seq([o : OID, t : 0..255, v : [k : kind, b : ...]])]             *)
EXTENDS Oid

(*************************** vocabulary *************************************)
PduName == <<"Open", "Close", "Register", "Unregister", "Get", "GetNext", "GetBulk",
             "TestSet", "CommitSet", "UndoSet", "CleanupSet", "Notify", "Ping",
             "IndexAllocate", "IndexDeallocate", "AddAgentCaps", "RemoveAgentCaps",
             "Response">>
PduTypes == 1..18

FInstance == 1
FNewIndex == 2
FAnyIndex == 4
FContext  == 8
FNetwork  == 16

\* flags allowed per PDU type: everything allows the byte order
AllowedBits(t) == {FNetwork} \cup
    (IF t \in {3, 4, 5, 6, 7, 8, 12, 13, 14, 15, 16, 17, 18} THEN {FContext} ELSE {}) \cup
    (IF t \in {3, 4, 18} THEN {FInstance} ELSE {}) \cup
    (IF t \in {14, 15, 18} THEN {FNewIndex, FAnyIndex} ELSE {})
FlagsAllowed(t, f) == Bits(f) \subseteq AllowedBits(t)

ParamKind(t) == CASE t = 1 -> "open"  [] t = 2 -> "close" [] t = 3 -> "reg"
                  [] t = 4 -> "unreg" [] t = 7 -> "bulk"  [] t = 16 -> "addcaps"
                  [] t = 17 -> "remcaps" [] t = 18 -> "resp" [] OTHER -> "none"
HasRanges(t) == t \in {5, 6, 7}
HasVarbinds(t) == t \in {8, 12, 14, 15, 18}

\* kind of the value a varbind type carries
ValueTags == {2, 4, 5, 6, 64, 65, 66, 67, 68, 70, 128, 129, 130}
ValueKind(t) == CASE t = 2 -> "i32" [] t = 4 -> "str" [] t = 6 -> "oid" [] t = 64 -> "ip"
                  [] t \in {65, 66, 67} -> "u32" [] t = 68 -> "opq" [] t = 70 -> "u64"
                  [] OTHER -> "void"

BE(flags) == HasBit(flags, FNetwork)
HasCtx(flags) == HasBit(flags, FContext)

(*************************** encoding ***************************************)
Prefixed(o) == /\ Len(o) >= 5
               /\ o[1] = <<0,0,0,1>> /\ o[2] = <<0,0,0,3>> /\ o[3] = <<0,0,0,6>> /\ o[4] = <<0,0,0,1>>
               /\ o[5][1] = 0 /\ o[5][2] = 0 /\ o[5][3] = 0 /\ o[5][4] # 0
WireSubids(o) == IF Prefixed(o) THEN SubSeq(o, 6, Len(o)) ELSE o
OidFits(o) == Len(o) - (IF Prefixed(o) THEN 5 ELSE 0) <= 255

EncOid(be, o, inc) ==
    IF o = <<>> THEN <<0, 0, 0, 0>>
    ELSE LET ws == WireSubids(o) IN
         FoldLeft(LAMBDA acc, w : acc \o Ser4(be, w),
                  <<Len(ws), (IF Prefixed(o) THEN o[5][4] ELSE 0), inc, 0>>, ws)

EncStr(be, s) == Ser4(be, W32(Len(s))) \o s \o Zeros(PadSize(Len(s)))

EncValue(be, t, v) ==
    CASE ValueKind(t) \in {"i32", "u32"} -> Ser4(be, v.b)
      [] ValueKind(t) = "u64"            -> Ser8(be, v.b)
      [] ValueKind(t) \in {"str", "opq"} -> EncStr(be, v.b)
      [] ValueKind(t) = "ip"             -> Ser4(be, W32(4)) \o v.b
      [] ValueKind(t) = "oid"            -> EncOid(be, v.b, 0)
      [] OTHER                           -> <<>>

EncVarbind(be, vb) ==
    Ser2(be, W16(vb.t)) \o <<0, 0>> \o EncOid(be, vb.o, 0) \o EncValue(be, vb.t, vb.v)

EncRange(be, r) == EncOid(be, r.s, r.i) \o EncOid(be, r.e, 0)

EncParams(be, q) ==
    CASE q.k = "none"    -> <<>>
      [] q.k = "open"    -> <<q.timeout, 0, 0, 0>> \o EncOid(be, q.oid, 0) \o EncStr(be, q.descr)
      [] q.k = "close"   -> <<q.reason, 0, 0, 0>>
      [] q.k = "reg"     -> <<q.timeout, q.prio, q.rsub, 0>> \o EncOid(be, q.oid, 0)
                            \o (IF q.rsub # 0 THEN Ser4(be, q.upper) ELSE <<>>)
      [] q.k = "unreg"   -> <<0, q.prio, q.rsub, 0>> \o EncOid(be, q.oid, 0)
                            \o (IF q.rsub # 0 THEN Ser4(be, q.upper) ELSE <<>>)
      [] q.k = "bulk"    -> Ser2(be, q.nonrep) \o Ser2(be, q.maxrep)
      [] q.k = "addcaps" -> EncOid(be, q.oid, 0) \o EncStr(be, q.descr)
      [] q.k = "remcaps" -> EncOid(be, q.oid, 0)
      [] q.k = "resp"    -> Ser4(be, q.uptime) \o Ser2(be, q.error) \o Ser2(be, q.index)

CatAll(seqs) == FoldLeft(LAMBDA a, s : a \o s, <<>>, seqs)

EncPayload(p) ==
    LET be == BE(p.flags) IN
    (IF HasCtx(p.flags) THEN EncStr(be, p.ctx) ELSE <<>>)
    \o EncParams(be, p.params)
    \o (IF HasRanges(p.tag) THEN FoldLeft(LAMBDA a, r : a \o EncRange(be, r), <<>>, p.ranges) ELSE <<>>)
    \o (IF HasVarbinds(p.tag) THEN FoldLeft(LAMBDA a, vb : a \o EncVarbind(be, vb), <<>>, p.vbs) ELSE <<>>)

EncHeader(tag, flags, sid, tid, pid, size) ==
    LET be == BE(flags) IN
    <<1, tag, flags, 0>> \o Ser4(be, sid) \o Ser4(be, tid) \o Ser4(be, pid) \o Ser4(be, W32(size))

EncPdu(p) == LET pl == EncPayload(p) IN
             EncHeader(p.tag, p.flags, p.sid, p.tid, p.pid, Len(pl)) \o pl

(* Which PDUs can be represented.                                           *)
ParamsFit(q) ==
    CASE q.k \in {"open", "reg", "unreg", "addcaps", "remcaps"} -> OidFits(q.oid)
      [] q.k = "bulk" -> ~Negative(q.nonrep) /\ ~Negative(q.maxrep)
      [] OTHER -> TRUE
ValueFits(t, v) ==
    \/ ValueKind(t) = "void"
    \/ v.k = ValueKind(t) /\ (v.k = "oid" => OidFits(v.b))
VarbindFits(vb) == vb.t \in ValueTags /\ OidFits(vb.o) /\ ValueFits(vb.t, vb.v)
RangeFits(r) == OidFits(r.s) /\ OidFits(r.e)
AllOf(P(_), s) == \A i \in 1..Len(s) : P(s[i])

Encodable(p) ==
    /\ p.tag \in PduTypes
    /\ p.params.k = ParamKind(p.tag)
    /\ FlagsAllowed(p.tag, p.flags)
    /\ ParamsFit(p.params)
    /\ (HasRanges(p.tag) => AllOf(RangeFits, p.ranges))
    /\ (HasVarbinds(p.tag) => AllOf(VarbindFits, p.vbs))

(* What of a PDU the wire carries.                                          *)
NormParams(q) == IF q.k \in {"reg", "unreg"} /\ q.rsub = 0 THEN [q EXCEPT !.upper = W32(0)] ELSE q
NormRange(r) == IF r.s = <<>> THEN [r EXCEPT !.i = 0] ELSE r
NormVb(vb) == IF ValueKind(vb.t) = "void" THEN [vb EXCEPT !.v = [k |-> "void", b |-> <<>>]] ELSE vb
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Norm(p) == [p EXCEPT !.ctx    = IF HasCtx(p.flags) THEN @ ELSE <<>>,
                     !.params = NormParams(@),
                     !.ranges = IF HasRanges(p.tag) THEN MapSeq(NormRange, @) ELSE <<>>,
                     !.vbs    = IF HasVarbinds(p.tag) THEN MapSeq(NormVb, @) ELSE <<>>]

NormPayload(q) == [q EXCEPT !.vbs = MapSeq(NormVb, @)]

(*************************** decoding ***************************************)
(* Every parser takes the bytes, the position of the first unread byte and  *)
(* the byte order; it returns Bad or [ok |-> TRUE, v |-> value, p |-> next] *)
Bad == [ok |-> FALSE]
Got(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Fits(b, p, n) == p + n - 1 <= Len(b)

DecStr(be, b, p) ==
    IF ~Fits(b, p, 4) THEN Bad
    ELSE LET w == De4(be, b, p) IN
         IF Negative(w) THEN Bad
         ELSE LET n == Int32(w) IN
              \* (n > Len(b) first: no overflow below)
              IF n > Len(b) \/ ~Fits(b, p + 4, n + PadSize(n)) THEN Bad
              ELSE IF \E i \in (p + 4 + n)..(p + 3 + n + PadSize(n)) : b[i] # 0 THEN Bad
              ELSE Got(SubSeq(b, p + 4, p + 3 + n), p + 4 + n + PadSize(n))

Internet(x) == <<W32(1), W32(3), W32(6), W32(1), W32(x)>>

\* v = [o |-> OID, i |-> include]
DecOid(be, b, p) ==
    IF ~Fits(b, p, 4) THEN Bad
    ELSE IF b[p + 3] # 0 THEN Bad
    ELSE LET n == b[p] IN
         IF ~Fits(b, p + 4, 4 * n) THEN Bad
         ELSE LET subs == [i \in 1..n |-> De4(be, b, p + 4 * i)]
                  o == IF b[p + 1] = 0 THEN <<>> \o subs ELSE Internet(b[p + 1]) \o subs
              IN Got([o |-> o, i |-> b[p + 2]], p + 4 + 4 * n)

DecWord(be, b, p, n) ==
    IF ~Fits(b, p, n) THEN Bad
    ELSE Got(CASE n = 2 -> De2(be, b, p) [] n = 4 -> De4(be, b, p) [] n = 8 -> De8(be, b, p), p + n)

Val(k, r) == IF r.ok THEN Got([k |-> k, b |-> r.v], r.p) ELSE Bad

DecIp(be, b, p) ==
    IF ~Fits(b, p, 8) THEN Bad
    ELSE IF De4(be, b, p) # W32(4) THEN Bad ELSE Got(SubSeq(b, p + 4, p + 7), p + 8)

DecValue(be, t, b, p) ==
    LET k == ValueKind(t) IN
    CASE k \in {"i32", "u32"} -> Val(k, DecWord(be, b, p, 4))
      [] k = "u64"            -> Val(k, DecWord(be, b, p, 8))
      [] k \in {"str", "opq"} -> Val(k, DecStr(be, b, p))
      [] k = "ip"             -> Val(k, DecIp(be, b, p))
      [] k = "oid"            -> LET r == DecOid(be, b, p) IN
                                 IF r.ok THEN Got([k |-> k, b |-> r.v.o], r.p) ELSE Bad
      [] OTHER                -> Got([k |-> "void", b |-> <<>>], p)

DecVarbind(be, b, p) ==
    IF ~Fits(b, p, 4) THEN Bad
    ELSE LET w == De2(be, b, p) IN
         IF w[1] # 0 \/ w[2] \notin ValueTags \/ b[p + 2] # 0 \/ b[p + 3] # 0 THEN Bad
         ELSE LET ro == DecOid(be, b, p + 4) IN
              IF ~ro.ok THEN Bad
              ELSE LET rv == DecValue(be, w[2], b, ro.p) IN
                   IF ~rv.ok THEN Bad
                   ELSE Got([o |-> ro.v.o, t |-> w[2], v |-> rv.v], rv.p)

DecRange(be, b, p) ==
    LET rs == DecOid(be, b, p) IN
    IF ~rs.ok THEN Bad
    ELSE LET re == DecOid(be, b, rs.p) IN
         IF ~re.ok THEN Bad
         ELSE Got([s |-> rs.v.o, e |-> re.v.o, i |-> rs.v.i], re.p)

RECURSIVE DecList(_, _, _, _, _)
DecList(D(_, _, _), be, b, p, acc) ==      \* items up to the end of b
    IF p > Len(b) THEN Got(acc, p)
    ELSE LET r == D(be, b, p) IN
         IF ~r.ok THEN Bad ELSE DecList(D, be, b, r.p, Append(acc, r.v))

DecOidStr(be, b, p, Mk(_, _)) ==
    LET ro == DecOid(be, b, p) IN
    IF ~ro.ok THEN Bad
    ELSE LET rd == DecStr(be, b, ro.p) IN
         IF ~rd.ok THEN Bad ELSE Got(Mk(ro.v.o, rd.v), rd.p)

DecRegion(be, b, p, rsub, Mk(_, _)) ==
    LET ro == DecOid(be, b, p) IN
    IF ~ro.ok THEN Bad
    ELSE IF rsub = 0 THEN Got(Mk(ro.v.o, W32(0)), ro.p)
    ELSE LET ru == DecWord(be, b, ro.p, 4) IN
         IF ~ru.ok THEN Bad ELSE Got(Mk(ro.v.o, ru.v), ru.p)

DecParams(k, be, b, p) ==
    CASE k = "none" -> Got([k |-> "none"], p)
      [] k = "open" ->
           IF ~Fits(b, p, 4) THEN Bad
           ELSE IF b[p+1] # 0 \/ b[p+2] # 0 \/ b[p+3] # 0 THEN Bad
           ELSE DecOidStr(be, b, p + 4, LAMBDA o, d :
                   [k |-> "open", timeout |-> b[p], oid |-> o, descr |-> d])
      [] k = "close" ->
           IF ~Fits(b, p, 4) THEN Bad
           ELSE IF b[p+1] # 0 \/ b[p+2] # 0 \/ b[p+3] # 0 THEN Bad
           ELSE Got([k |-> "close", reason |-> b[p]], p + 4)
      [] k = "reg" ->
           IF ~Fits(b, p, 4) THEN Bad
           ELSE IF b[p+3] # 0 THEN Bad
           ELSE DecRegion(be, b, p + 4, b[p+2], LAMBDA o, u :
                   [k |-> "reg", timeout |-> b[p], prio |-> b[p+1], rsub |-> b[p+2], oid |-> o, upper |-> u])
      [] k = "unreg" ->
           IF ~Fits(b, p, 4) THEN Bad
           ELSE IF b[p] # 0 \/ b[p+3] # 0 THEN Bad
           ELSE DecRegion(be, b, p + 4, b[p+2], LAMBDA o, u :
                   [k |-> "unreg", prio |-> b[p+1], rsub |-> b[p+2], oid |-> o, upper |-> u])
      [] k = "bulk" ->
           IF ~Fits(b, p, 4) THEN Bad
           ELSE LET n == De2(be, b, p)
                    m == De2(be, b, p + 2)
                IN IF Negative(n) \/ Negative(m) THEN Bad
                   ELSE Got([k |-> "bulk", nonrep |-> n, maxrep |-> m], p + 4)
      [] k = "addcaps" ->
           DecOidStr(be, b, p, LAMBDA o, d : [k |-> "addcaps", oid |-> o, descr |-> d])
      [] k = "remcaps" ->
           LET ro == DecOid(be, b, p) IN
           IF ~ro.ok THEN Bad ELSE Got([k |-> "remcaps", oid |-> ro.v.o], ro.p)
      [] k = "resp" ->
           IF ~Fits(b, p, 8) THEN Bad
           ELSE Got([k |-> "resp", uptime |-> De4(be, b, p),
                     error |-> De2(be, b, p + 4), index |-> De2(be, b, p + 6)], p + 8)

HeaderSize == 20

(* b is a header; on success v holds its fields (size as a word).           *)
HeaderOK(b) ==
    /\ Len(b) = HeaderSize
    /\ b[1] = 1 /\ b[2] \in PduTypes /\ b[4] = 0
    /\ FlagsAllowed(b[2], b[3])
    /\ LET w == De4(BE(b[3]), b, 17) IN ~Negative(w) /\ w[4] % 4 = 0
DecHeader(b) ==
    IF ~HeaderOK(b) THEN Bad
    ELSE LET be == BE(b[3]) IN
         [ok |-> TRUE,
          v |-> [tag |-> b[2], flags |-> b[3], sid |-> De4(be, b, 5), tid |-> De4(be, b, 9),
                 pid |-> De4(be, b, 13), size |-> De4(be, b, 17)]]

(* Payload of a PDU with the given type, flags and announced size.          *)
DecPayload(tag, flags, size, b) ==
    IF tag \notin PduTypes \/ size # W32(Len(b)) THEN Bad
    ELSE LET be == BE(flags)
             rc == IF HasCtx(flags) THEN DecStr(be, b, 1) ELSE Got(<<>>, 1)
         IN IF ~rc.ok THEN Bad
            ELSE LET rp == DecParams(ParamKind(tag), be, b, rc.p) IN
                 IF ~rp.ok THEN Bad
                 ELSE LET rr == IF HasRanges(tag) THEN DecList(DecRange, be, b, rp.p, <<>>)
                                ELSE Got(<<>>, rp.p)
                      IN IF ~rr.ok THEN Bad
                         ELSE LET rv == IF HasVarbinds(tag) THEN DecList(DecVarbind, be, b, rr.p, <<>>)
                                        ELSE Got(<<>>, rr.p)
                              IN IF ~rv.ok \/ rv.p # Len(b) + 1 THEN Bad
                                 ELSE [ok |-> TRUE,
                                       v |-> [ctx |-> rc.v, params |-> rp.v, ranges |-> rr.v, vbs |-> rv.v]]

(* The whole message.                                                       *)
DecPdu(b) ==
    IF Len(b) < HeaderSize THEN Bad
    ELSE LET h == DecHeader(SubSeq(b, 1, HeaderSize)) IN
         IF ~h.ok THEN Bad
         ELSE LET pl == DecPayload(h.v.tag, h.v.flags, h.v.size, SubSeq(b, HeaderSize + 1, Len(b))) IN
              IF ~pl.ok THEN Bad
              ELSE [ok |-> TRUE,
                    v |-> [tag |-> h.v.tag, flags |-> h.v.flags, sid |-> h.v.sid, tid |-> h.v.tid,
                           pid |-> h.v.pid, ctx |-> pl.v.ctx, params |-> pl.v.params,
                           ranges |-> pl.v.ranges, vbs |-> pl.v.vbs]]
=============================================================================
