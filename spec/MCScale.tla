------------------------------ MODULE MCScale ------------------------------
(* Scale against Wire: for every place and several sizes the description of *)
(* a grown message is its encoding, and whether a grown message decodes     *)
(* after damage near its end, and to what, does not depend on its size.     *)
EXTENDS Scale, TLC, FiniteSetsExt

CONSTANTS StrSizes, ListSizes, HurtVals
VARIABLES pdu, place, n, hurt
vars == <<pdu, place, n, hurt>>

Num == <<1, 2, 3, 4>>
P(t, f, q, r, v) == [tag |-> t, flags |-> f, sid |-> Num, tid |-> Num, pid |-> Num, ctx |-> <<67, 68>>, params |-> q, ranges |-> r, vbs |-> v]
None == [k |-> "none"]
Resp == [k |-> "resp", uptime |-> Num, error |-> W16(5), index |-> W16(1)]
Vb(o, t, k, b) == [o |-> o, t |-> t, v |-> [k |-> k, b |-> b]]
EndVb == Vb(O(<<9>>), 2, "i32", Num)
Item == [s |-> O(<<1, 3, 6, 1, 2, 7>>), e |-> <<>>, i |-> 1]
Bulk == [k |-> "bulk", nonrep |-> W16(1), maxrep |-> W16(2)]
Shapes ==
    UNION {{<<P(13, 8 + f, None, <<>>, <<>>), "ctx">>, <<P(18, 8 + f, Resp, <<>>, <<EndVb>>), "ctx">>,
            <<P(1, f, [k |-> "open", timeout |-> 1, oid |-> O(<<7>>), descr |-> <<>>], <<>>, <<>>), "descr">>,
            <<P(16, 8 + f, [k |-> "addcaps", oid |-> <<>>, descr |-> <<>>], <<>>, <<>>), "descr">>,
            <<P(8, f, None, <<>>, <<Vb(O(<<1>>), 4, "str", <<>>), EndVb>>), "val">>,
            <<P(18, 8 + f, Resp, <<>>, <<Vb(O(<<1>>), 68, "opq", <<>>)>>), "val">>,
            <<P(12, f, None, <<>>, <<Vb(<<>>, 5, "void", <<>>), EndVb>>), "vbs">>,
            <<P(12, 8 + f, None, <<>>, <<Vb(O(<<1, 3, 6, 1, 9>>), 4, "str", <<65>>), EndVb>>), "vbs">>,
            <<P(5, f, None, <<[s |-> <<>>, e |-> <<>>, i |-> 0], Item>>, <<>>), "ranges">>,
            <<P(7, 8 + f, Bulk, <<Item>>, <<>>), "ranges">>} : f \in {0, 16}}
\* damage: byte k from the end becomes v; k = 0: none; v = 256: the last k bytes are cut off
Hurts == {<<0, 0>>} \cup ((1..16) \X HurtVals)

Init == /\ \E s \in Shapes : pdu = s[1] /\ place = s[2]
        /\ n = 0 /\ hurt = <<0, 0>>
Next == n = 0 /\ n' \in (IF IsList(place) THEN ListSizes ELSE StrSizes) /\ hurt' \in Hurts /\ UNCHANGED <<pdu, place>>
Spec == Init /\ [][Next]_vars

Payload(k) == EncPayload(Grow(pdu, place, k))
Damaged(b, d) == IF d[1] = 0 THEN b ELSE IF d[2] = 256 THEN SubSeq(b, 1, Len(b) - d[1]) ELSE [b EXCEPT ![Len(b) - d[1] + 1] = d[2]]
Dec(b) == DecPayload(pdu.tag, pdu.flags, W32(Len(b)), b)

\* the summary of a message, as the harness makes it
Observed(m, h, t, u) ==
    LET mid == Len(m) - t
        per(i) == m[i] = m[i + u]
        odd == {j \in 1..(mid - u) : ~per(j)}
    IN [len |-> Len(m), head |-> SubSeq(m, 1, h), tail |-> SubSeq(m, Len(m) - t + 1, Len(m)), u |-> u, lo |-> IF odd = {} THEN 0 ELSE Max(odd), hi |-> mid]
H == 64
Described == n > 0 => LET m == EncPdu(Grow(pdu, place, n)) IN
                      Len(m) > 2 * H => LongRight(pdu, place, n, Observed(m, H, H, Unit(pdu, place)))
\* and no other bytes have this description (one byte changed anywhere)
Only == n > 0 /\ hurt[2] = 256 => LET m == EncPdu(Grow(pdu, place, n)) IN
        Len(m) > 2 * H => \A i \in {j \in 1..Len(m) : j % 16 = hurt[1] - 1} :
            ~LongRight(pdu, place, n, Observed([m EXCEPT ![i] = (@ + 1) % 256], H, H, Unit(pdu, place)))

\* whether it fits into a size
SizeFits == n > 0 /\ hurt[1] = 0 => LET l == Len(Payload(n)) IN \A max \in 1..(l + 300) : LongFitsIn(max, pdu, place, n) = (l <= max)

\* decoding: the smaller instance decides
Small == IF IsList(place) THEN 6 ELSE (n % 4) + 24
SameDecoding == n > Small =>
    LET r == Dec(Damaged(Payload(n), hurt))
        s == Dec(Damaged(Payload(Small), hurt))
        \* the repeated part of the smaller result, made longer
        Longer(x) == CASE place = "ctx" -> [x EXCEPT !.ctx = Rep(X, n - Small) \o @]
                       [] place = "descr" -> [x EXCEPT !.params.descr = Rep(X, n - Small) \o @]
                       [] place = "val" -> [x EXCEPT !.vbs[1].v.b = Rep(X, n - Small) \o @]
                       [] place = "vbs" -> [x EXCEPT !.vbs = Rep(x.vbs[1], n - Small) \o @]
                       [] place = "ranges" -> [x EXCEPT !.ranges = Rep(x.ranges[1], n - Small) \o @]
    IN /\ r.ok = s.ok
       /\ s.ok => r.v = Longer(s.v)
=============================================================================
