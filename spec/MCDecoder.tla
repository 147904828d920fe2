----------------------------- MODULE MCDecoder -----------------------------
(* Decoder on every damaged message of MCWire and on messages whose counts  *)
(* and lengths claim more than there is.                                    *)
EXTENDS MCWire, Decoder

Claims == {<<127, 255, 255, 255>>, <<255, 255, 255, 255>>, <<128, 0, 0, 0>>, <<64, 0, 0, 0>>, <<0, 16, 0, 0>>, <<0, 0, 0, 9>>}
\* any word of the payload replaced by a claim
Claimed(m) == {[m EXCEPT ![i] = w[1], ![i+1] = w[2], ![i+2] = w[3], ![i+3] = w[4]] :
                  w \in Claims, i \in {j \in (HeaderSize + 1)..(Len(m) - 3) : j % 4 = 1}}
Hostile(m) == Claimed(m) \cup UNION {Claimed(Resize(SubSeq(m, 1, Len(m) - 4 * n))) : n \in 1..((Len(m) - HeaderSize) \div 4)}
Inputs == UNION {LET m == EncPdu(v) IN {m} \cup DamagedBytes(m) \cup Hostile(m) : v \in Victims}
Good(m) == Len(m) >= HeaderSize /\ m[2] \in PduTypes

Payload(m) == SubSeq(m, HeaderSize + 1, Len(m))
DInit == /\ pdu = 0 /\ stage = "dec"
         /\ msg \in {m \in Inputs : Good(m)}
         /\ DecoderInit(msg[2], msg[3], Payload(msg))
DNext == DecoderNext /\ UNCHANGED vars
DSpec == DInit /\ [][DNext]_<<vars, decVars>> /\ WF_<<vars, decVars>>(DNext)

Ref == DecPayload(msg[2], msg[3], W32(Len(bytes)), bytes)
Agrees == /\ verdict = "ok" => Ref.ok /\ out = Flat(msg[3], Ref.v)
          /\ verdict = "bad" => ~Ref.ok
Bounded == alloc <= 64 * Len(bytes) + 128
Ends == <>(verdict # "run")
\* the machine never stands still: bytes are read or work is taken off the stack
Measure(n, w) == 4 * n + Cardinality({i \in 1..Len(w) : TRUE})
Progress == [][verdict' # "run" \/ pos' > pos \/ Len(todo') < Len(todo) \/ Len(todo') = Len(todo) + 2]_<<vars, decVars>>

HCases(z) == {[b |-> x] : x \in UNION {Hostile(EncPdu(v)) : v \in Victims}}
DDone == TLCGet("distinct") >= 0 /\ IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, SetToSeq(HCases(0))) ELSE TRUE
=============================================================================
