------------------------------ MODULE Channel ------------------------------
(* The stream of C08 as bytes: encoded PDUs are written one after another,  *)
(* payload bytes may be damaged on the way, the bytes arrive in chunks of   *)
(* any size, and a receiver cuts headers and payloads out of them with the  *)
(* codec of Wire.  Checked: this implements Stream (a queue of messages),   *)
(* and all that was sent is taken in the end.  If header bytes may be       *)
(* damaged too it does not (negative model): the promise is about payloads. *)
EXTENDS Stream, TLC, Json, IOUtils, FiniteSets

CONSTANTS MaxMsgs, HeaderDamage
VARIABLES wire,      \* bytes on the way
          marks,     \* for each of them: 0 if it may not be damaged, else the number of its message
          rbuf,      \* bytes that have arrived and were not taken
          sent,      \* how many messages were sent
          taken,     \* how many were taken
          hurt,      \* messages damaged so far
          hdr,       \* the header just decoded
          off        \* the receiver saw something that Stream does not allow
chanVars == <<wire, marks, rbuf, sent, taken, hurt, hdr, off>>
all == <<chanVars, streamVars>>

Vocabulary ==
    LET P(t, f, q, r, v) == [tag |-> t, flags |-> f, sid |-> W32(1), tid |-> W32(2), pid |-> <<1, 2, 3, 4>>, ctx |-> <<67>>, params |-> q, ranges |-> r, vbs |-> v]
        N == [k |-> "none"]
    IN { P(13, 0, N, <<>>, <<>>),                                                                  \* no payload at all
         P(13, 24, N, <<>>, <<>>),                                                                 \* a context
         P(2, 16, [k |-> "close", reason |-> 5], <<>>, <<>>),
         P(5, 0, N, <<[s |-> O(<<1>>), e |-> <<>>, i |-> 1]>>, <<>>),
         P(18, 16, [k |-> "resp", uptime |-> W32(0), error |-> W16(0), index |-> W16(0)], <<>>,
           <<[o |-> <<>>, t |-> 4, v |-> [k |-> "str", b |-> <<9>>]]>>) }
Blank == <<>>

Init == /\ StreamInit /\ wire = <<>> /\ marks = <<>> /\ rbuf = <<>> /\ sent = 0 /\ taken = 0 /\ hurt = {} /\ hdr = Blank /\ off = FALSE
Sender == /\ sent < MaxMsgs
          /\ \E p \in Vocabulary : LET m == EncPdu(p) IN
                /\ wire' = wire \o m
                /\ marks' = marks \o [i \in 1..Len(m) |-> IF i <= HeaderSize /\ ~HeaderDamage THEN 0 ELSE sent + 1]
                /\ Send([p |-> p, n |-> Len(m), dam |-> FALSE])
          /\ sent' = sent + 1 /\ UNCHANGED <<rbuf, taken, hurt, hdr, off>>
\* the queue index of a message is its number minus the number of those taken
Edge(i) == IF i = 1 \/ i = Len(wire) THEN TRUE ELSE marks[i - 1] # marks[i] \/ marks[i + 1] # marks[i] \/ i % 4 = 0
Damage == \E i \in 1..Len(wire) : LET k == marks[i] IN
            /\ k > 0 /\ k \notin hurt /\ hurt = {}                       \* one damaged message per behaviour
            /\ Edge(i)
            /\ \E v \in {0, 255} \ {wire[i]} : wire' = [wire EXCEPT ![i] = v]
            /\ hurt' = hurt \cup {k}
            /\ queue' = [queue EXCEPT ![k - taken].dam = TRUE]
            /\ UNCHANGED <<marks, rbuf, sent, taken, hdr, off, phase>>
Deliver == \E n \in {1, 3, 20, 21, 64} : LET k == Min2(n, Len(wire)) IN
            /\ wire # <<>> /\ (n = 1 \/ n <= Len(wire) \/ n = 64)
            /\ rbuf' = rbuf \o SubSeq(wire, 1, k)
            /\ wire' = SubSeq(wire, k + 1, Len(wire)) /\ marks' = SubSeq(marks, k + 1, Len(marks))
            /\ UNCHANGED <<sent, taken, hurt, hdr, off, streamVars>>
ReadHeader ==
    /\ phase = "hdr" /\ hdr = Blank /\ ~off /\ Len(rbuf) >= HeaderSize
    /\ LET r == DecHeader(SubSeq(rbuf, 1, HeaderSize)) IN
       IF r.ok /\ ENABLED TakeHeader(r.v)
       THEN TakeHeader(r.v) /\ hdr' = r.v /\ off' = off
       ELSE off' = TRUE /\ hdr' = hdr /\ UNCHANGED streamVars
    /\ rbuf' = SubSeq(rbuf, HeaderSize + 1, Len(rbuf))
    /\ UNCHANGED <<wire, marks, sent, taken, hurt>>
ReadPayload ==
    /\ phase = "pay" /\ ~off /\ Len(rbuf) >= Int32(hdr.size)
    /\ LET n == Int32(hdr.size)
           r == DecPayload(hdr.tag, hdr.flags, hdr.size, SubSeq(rbuf, 1, n))
           q == IF r.ok THEN r.v ELSE <<>>
       IN /\ IF ENABLED TakePayload(n, r.ok, q) THEN TakePayload(n, r.ok, q) /\ off' = off
             ELSE off' = TRUE /\ UNCHANGED streamVars
          /\ rbuf' = SubSeq(rbuf, n + 1, Len(rbuf))
    /\ hdr' = Blank /\ taken' = taken + 1
    /\ UNCHANGED <<wire, marks, sent, hurt>>
Next == Sender \/ Damage \/ Deliver \/ ReadHeader \/ ReadPayload
Spec == Init /\ [][Next]_all /\ WF_all(Deliver) /\ WF_all(ReadHeader) /\ WF_all(ReadPayload)

Framed == ~off
Count == taken + Len(queue) = sent
Clean == \A k \in 1..Len(queue) : queue[k].dam <=> (taken + k) \in hurt
\* the bytes in flight are exactly the messages still to be taken
Conserved == phase = "hdr" /\ ~off => Len(wire) + Len(rbuf) = FoldLeft(LAMBDA acc, m : acc + m.n, 0, queue)
AllTaken == [](sent = MaxMsgs => <>(taken = MaxMsgs /\ wire = <<>> /\ rbuf = <<>>))

(* streams for the real code: messages, one damaged byte or none, a chunk size *)
Streams == UNION {[1..n -> Vocabulary] : n \in 1..3}
Size == TLCEval([p \in Vocabulary |-> Len(EncPdu(p))])
Hits(ms) == {<<0, 0, 0>>} \cup UNION {{<<k, i, v>> : i \in (HeaderSize + 1)..Size[ms[k]], v \in {0, 1, 255}} : k \in 1..Min2(2, Len(ms))}
Cases(z) == UNION {{[st |-> [ms |-> ms, hit |-> h]] : h \in Hits(ms)} : ms \in Streams}
Done == TLCGet("distinct") >= 0 /\ IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases(0))) ELSE TRUE
=============================================================================
