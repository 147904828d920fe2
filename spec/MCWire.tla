------------------------------- MODULE MCWire -------------------------------
(* The codec as a channel of one message: a PDU is encoded, its bytes may   *)
(* be damaged (one byte changed, words cut or added), and are decoded.      *)
(* Checks of Wire itself, for every PDU of a small but complete vocabulary: *)
(* decoding inverts encoding (C01), sizes and alignment are right (C02),    *)
(* what cannot be encoded is told apart (C03), and whatever the decoder     *)
(* accepts can be encoded again and means the same (C04, C05).  All these   *)
(* PDUs and damaged messages are cases for the real code.                   *)
EXTENDS Wire, TLC, Json, IOUtils, FiniteSetsExt

CONSTANTS Big        \* FALSE: the smaller vocabulary
VARIABLES pdu, msg, stage
vars == <<pdu, msg, stage>>

(*************************** vocabulary *************************************)
Nums == {W32(0), <<255, 255, 255, 255>>, <<128, 0, 0, 1>>, <<1, 2, 3, 4>>}
Num == <<1, 2, 3, 4>>
MaxW == <<255, 255, 255, 255>>
Pre(x) == <<W32(1), W32(3), W32(6), W32(1), W32(x)>>
Oids == {<<>>, O(<<0>>), O(<<1, 3, 6, 1>>), Pre(0), Pre(1), Pre(255), Pre(256), Append(Pre(4), MaxW), O(<<1, 3, 6, 2, 4>>),
         O(<<2, 3, 6, 1, 4>>), O(<<1, 3, 7, 1, 4, 5>>), O(<<1, 4, 6, 1, 4>>), Append(Pre(65536), Num), <<MaxW, W32(0)>>}
FewOids == {<<>>, Append(Pre(4), MaxW), <<Num>>}
Strs == {<<>>, <<0>>, <<65, 66>>, <<255, 0, 37>>, <<1, 2, 3, 4>>, <<1, 2, 3, 4, 5>>}
FewStrs == {<<>>, <<1, 2, 3, 4>>, <<255, 0, 37>>}
Halves == {W16(0), W16(1), <<127, 255>>, <<128, 0>>, <<1, 2>>}

Values(t) == LET k == ValueKind(t) IN
    {[k |-> k, b |-> x] : x \in
        CASE k \in {"i32", "u32"} -> Nums
          [] k = "u64" -> {n \o m : n \in Nums, m \in {W32(0), <<128, 0, 0, 1>>}}
          [] k \in {"str", "opq"} -> Strs
          [] k = "ip" -> {<<0, 0, 0, 0>>, <<1, 2, 3, 4>>, <<255, 128, 127, 0>>}
          [] k = "oid" -> Oids
          [] OTHER -> {<<>>}}
SomeValue(t) == CHOOSE v \in Values(t) : \A w \in Values(t) : Len(v.b) >= Len(w.b)
Vbs1 == UNION {{[o |-> O(<<1>>), t |-> t, v |-> v] : v \in Values(t)} : t \in ValueTags}
         \cup {[o |-> o, t |-> 5, v |-> [k |-> "void", b |-> <<>>]] : o \in Oids}
FewVbs == {[o |-> o, t |-> t, v |-> SomeValue(t)] : o \in {<<>>, Append(Pre(4), MaxW)}, t \in ValueTags}
VbLists == {<<>>} \cup {<<v>> : v \in Vbs1} \cup {<<v, w>> : v \in FewVbs, w \in {x \in FewVbs : x.o = <<>>}}
FewVbLists == {<<>>} \cup {<<v>> : v \in FewVbs}
Rgs == {[s |-> s, e |-> e, i |-> i] : s \in Oids, e \in FewOids, i \in {0, 1}}
        \cup {[s |-> s, e |-> e, i |-> 1] : s \in FewOids, e \in Oids}
RgLists == {<<>>} \cup {<<r>> : r \in Rgs} \cup {<<r, q>> : r \in {x \in Rgs : x.s \in FewOids}, q \in {x \in Rgs : x.s = <<>> /\ x.e \in FewOids}}
FewRgLists == {<<>>} \cup {<<[s |-> s, e |-> e, i |-> 1]>> : s \in FewOids, e \in FewOids}

Params(k) ==
    CASE k = "none"  -> {[k |-> k]}
      [] k = "open"  -> {[k |-> k, timeout |-> t, oid |-> o, descr |-> d] : t \in {0, 255}, o \in FewOids, d \in FewStrs}
                        \cup {[k |-> k, timeout |-> 7, oid |-> o, descr |-> <<9>>] : o \in Oids}
                        \cup {[k |-> k, timeout |-> 7, oid |-> <<>>, descr |-> d] : d \in Strs}
      [] k = "close" -> {[k |-> k, reason |-> r] : r \in {0, 1, 6, 255}}
      [] k = "reg"   -> {[k |-> k, timeout |-> t, prio |-> q, rsub |-> r, oid |-> o, upper |-> u] :
                         t \in {0, 255}, q \in {1, 128}, r \in {0, 1, 255}, o \in FewOids, u \in {Num, MaxW}}
                        \cup {[k |-> k, timeout |-> 1, prio |-> 2, rsub |-> 3, oid |-> o, upper |-> Num] : o \in Oids}
      [] k = "unreg" -> {[k |-> k, prio |-> q, rsub |-> r, oid |-> o, upper |-> u] :
                         q \in {0, 128}, r \in {0, 1, 255}, o \in FewOids, u \in {Num, MaxW}}
                        \cup {[k |-> k, prio |-> 2, rsub |-> 3, oid |-> o, upper |-> Num] : o \in Oids}
      [] k = "bulk"  -> {[k |-> k, nonrep |-> n, maxrep |-> m] : n \in Halves, m \in Halves}
      [] k = "addcaps" -> {[k |-> k, oid |-> o, descr |-> d] : o \in FewOids, d \in Strs} \cup {[k |-> k, oid |-> o, descr |-> <<9>>] : o \in Oids}
      [] k = "remcaps" -> {[k |-> k, oid |-> o] : o \in Oids}
      [] k = "resp"  -> {[k |-> k, uptime |-> u, error |-> e, index |-> i] : u \in {Num, MaxW}, e \in Halves, i \in Halves}
OneParam(k) == CHOOSE q \in Params(k) : ParamsFit(q)

RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + SumOf(S \ {x})
FlagSets(t) == {SumOf(S) : S \in SUBSET AllowedBits(t)}
Pdu(t, f, c, q, r, v) == [tag |-> t, flags |-> f, sid |-> Num, tid |-> MaxW, pid |-> <<0, 0, 1, 0>>, ctx |-> c, params |-> q, ranges |-> r, vbs |-> v]
Plain(t, f) == Pdu(t, f, <<67>>, OneParam(ParamKind(t)), IF HasRanges(t) THEN <<[s |-> O(<<1>>), e |-> <<>>, i |-> 1]>> ELSE <<>>,
                   IF HasVarbinds(t) THEN <<[o |-> O(<<1>>), t |-> 2, v |-> [k |-> "i32", b |-> Num]]>> ELSE <<>>)
Orders(t) == {0, 16} \cup (IF FContext \in AllowedBits(t) THEN {24} ELSE {})

OfType(t) ==
    {Plain(t, f) : f \in FlagSets(t)}
    \cup {Pdu(t, f, c, OneParam(ParamKind(t)), <<>>, <<>>) : f \in {x \in FlagSets(t) : HasCtx(x)}, c \in FewStrs}
    \cup {Pdu(t, f, <<67>>, q, <<>>, <<>>) : f \in Orders(t), q \in Params(ParamKind(t))}
    \cup (IF HasRanges(t) THEN {Pdu(t, f, <<>>, OneParam(ParamKind(t)), r, <<>>) : f \in {0, 16}, r \in IF Big THEN RgLists ELSE {l \in RgLists : Len(l) < 2} \cup FewRgLists} ELSE {})
    \cup (IF HasVarbinds(t) THEN {Pdu(t, f, <<>>, OneParam(ParamKind(t)), <<>>, v) : f \in {0, 16}, v \in IF Big \/ t = 18 THEN VbLists ELSE FewVbLists} ELSE {})
\* and PDUs that cannot be encoded
BadFlags(t) == {f \in {1, 2, 4, 8, 32, 64, 128, 24, 255} : ~FlagsAllowed(t, f)}
Unfit ==
    {Plain(t, f) : t \in {1, 3, 5, 12, 18}, f \in {1, 2, 4, 8, 32, 64, 128, 24, 255}}
    \cup {[Plain(t, 0) EXCEPT !.tag = u] : t \in {1, 7, 12, 13}, u \in {0, 3, 5, 8, 18, 19, 255}}
    \cup {[Plain(12, 0) EXCEPT !.vbs = <<[o |-> <<>>, t |-> t, v |-> v]>>] : t \in ValueTags \cup {0, 1, 3, 48, 69, 131}, v \in {SomeValue(u) : u \in {2, 4, 5, 6, 64, 65, 68, 70}}}
Pdus == UNION {OfType(t) : t \in PduTypes}

(*************************** behaviour **************************************)
Init == pdu \in Pdus \cup Unfit /\ msg = <<>> /\ stage = "made"
Encode == /\ stage = "made" /\ Encodable(pdu)
          /\ msg' = EncPdu(pdu) /\ stage' = "sent" /\ pdu' = pdu
Refuse == /\ stage = "made" /\ ~Encodable(pdu)
          /\ stage' = "refused" /\ UNCHANGED <<pdu, msg>>
\* the message with its header still announcing the payload that follows
Resize(x) == SubSeq(x, 1, 16) \o Ser4(BE(x[3]), W32(Len(x) - HeaderSize)) \o SubSeq(x, HeaderSize + 1, Len(x))
DamageVals(old) == {0, 1, 4, 128, 255, (old + 1) % 256} \ {old}
Victims == {Plain(t, f) : t \in PduTypes, f \in {0, 16}}
           \cup {Pdu(5, 8, <<1>>, [k |-> "none"], <<[s |-> <<Num>>, e |-> Pre(2), i |-> 1]>>, <<>>)}
           \cup {Pdu(12, 16, <<>>, [k |-> "none"], <<>>, <<[o |-> <<>>, t |-> t, v |-> SomeValue(t)]>>) : t \in ValueTags}
           \cup (IF Big THEN {Pdu(18, 0, <<>>, OneParam("resp"), <<>>, <<[o |-> <<>>, t |-> t, v |-> SomeValue(t)], [o |-> Pre(3), t |-> 5, v |-> [k |-> "void", b |-> <<>>]]>>) : t \in ValueTags} ELSE {})
Damage == /\ stage = "sent" /\ pdu \in Victims
          /\ \/ \E i \in 1..Len(msg) : \E v \in DamageVals(msg[i]) : msg' = [msg EXCEPT ![i] = v]
             \/ \E n \in 1..(Len(msg) - HeaderSize) : msg' = Resize(SubSeq(msg, 1, Len(msg) - n))
             \/ \E n \in 1..5 : msg' = Resize(msg \o Zeros(n))
          /\ stage' = "damaged" /\ pdu' = pdu
Next == Encode \/ Refuse \/ Damage
Spec == Init /\ [][Next]_vars

(*************************** properties *************************************)
RoundTrip == stage = "sent" => DecPdu(msg) = [ok |-> TRUE, v |-> Norm(pdu)]
SizeRight == stage = "sent" =>
                            /\ Len(msg) % 4 = 0
                            /\ De4(BE(pdu.flags), msg, 17) = W32(Len(msg) - HeaderSize)
                            /\ \A i \in 1..Len(msg) : msg[i] \in Byte
Refused == (stage = "refused") => pdu \in Unfit \/ pdu.params.k = "bulk"
\* what is accepted can be sent on, unchanged in meaning, and is no longer than what came
Accepted == stage = "damaged" =>
    LET r == DecPdu(msg) IN
    r.ok => /\ Encodable(r.v)
            /\ Len(EncPdu(r.v)) <= Len(msg)
            /\ Norm(DecPdu(EncPdu(r.v)).v) = Norm(r.v)
\* a change of the reserved bytes, the version, the length or the padding never goes unnoticed
Strict == stage = "damaged" =>
                            /\ msg[1] # 1 => ~DecPdu(msg).ok
                            /\ msg[4] # 0 => ~DecPdu(msg).ok
                            /\ Len(msg) % 4 # 0 => ~DecPdu(msg).ok

(*************************** cases ******************************************)
DamagedBytes(m) == {[m EXCEPT ![i] = v] : i \in 1..Len(m), v \in {0, 1, 4, 128, 255}}
                   \cup {Resize(SubSeq(m, 1, Len(m) - n)) : n \in 1..(Len(m) - HeaderSize)}
                   \cup {Resize(m \o Zeros(n)) : n \in 1..5}
Cases(z) == {[p |-> x] : x \in Pdus \cup Unfit} \cup {[b |-> x] : x \in UNION {DamagedBytes(EncPdu(v)) : v \in Victims}}
Done == TLCGet("distinct") >= 0 /\ IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases(0))) ELSE TRUE
=============================================================================
