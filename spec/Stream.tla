------------------------------- MODULE Stream -------------------------------
(* What a stream of PDUs is to its user: a queue of messages.  The receiver *)
(* takes a header, then a payload.  A message whose payload was damaged on  *)
(* the way may be refused or misread, but it is taken off the queue like    *)
(* any other.                                                               *)
EXTENDS Wire

VARIABLES queue, phase      \* queue: Seq([p, n, dam]); phase: "hdr" or "pay"
streamVars == <<queue, phase>>

HeaderOf(p, n) == [tag |-> p.tag, flags |-> p.flags, sid |-> p.sid, tid |-> p.tid, pid |-> p.pid, size |-> W32(n)]
PayloadOf(p) == LET q == Norm(p) IN [ctx |-> q.ctx, params |-> q.params, ranges |-> q.ranges, vbs |-> q.vbs]

StreamInit == queue = <<>> /\ phase = "hdr"
Send(m) == queue' = Append(queue, m) /\ phase' = phase
TakeHeader(h) == /\ phase = "hdr" /\ queue # <<>>
                 /\ h = HeaderOf(Head(queue).p, Head(queue).n - HeaderSize)
                 /\ phase' = "pay" /\ queue' = queue
TakePayload(n, ok, q) ==
    /\ phase = "pay" /\ queue # <<>>
    /\ n = Head(queue).n - HeaderSize
    /\ ~Head(queue).dam => ok /\ NormPayload(q) = PayloadOf(Head(queue).p)
    /\ queue' = Tail(queue) /\ phase' = "hdr"
End == queue = <<>> /\ phase = "hdr" /\ UNCHANGED streamVars
=============================================================================
