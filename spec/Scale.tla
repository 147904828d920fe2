------------------------------- MODULE Scale -------------------------------
(* Messages of any size.  TLC cannot hold a message of 16 MiB, but a        *)
(* message grown by repetition is described exactly by a small one: Grow    *)
(* makes a string of n equal bytes, or a list that begins with n equal      *)
(* items, and the bytes of EncPdu(Grow(p, pl, n)) are those of a smaller    *)
(* instance with the announced lengths changed and units inserted.  MCScale *)
(* checks this description against EncPdu, and that decoding does not       *)
(* depend on n, where both can be evaluated; the trace specification uses   *)
(* it for sizes where only the description can.                             *)
EXTENDS Wire

X == 120
Rep(x, n) == [i \in 1..n |-> x]
Places == {"ctx", "descr", "val", "vbs", "ranges"}
IsList(pl) == pl \in {"vbs", "ranges"}

Grow(p, pl, n) ==
    CASE pl = "ctx"    -> [p EXCEPT !.ctx = Rep(X, n)]
      [] pl = "descr"  -> [p EXCEPT !.params.descr = Rep(X, n)]
      [] pl = "val"    -> [p EXCEPT !.vbs[1].v.b = Rep(X, n)]
      [] pl = "vbs"    -> [p EXCEPT !.vbs = Rep(p.vbs[1], n) \o Tail(p.vbs)]
      [] pl = "ranges" -> [p EXCEPT !.ranges = Rep(p.ranges[1], n) \o Tail(p.ranges)]

\* bytes that one more byte or item adds (a string grows in steps of four)
Unit(p, pl) == IF IsList(pl) THEN Len(EncPayload(Grow(p, pl, 2))) - Len(EncPayload(Grow(p, pl, 1))) ELSE 1
\* a smaller instance of at least k bytes, congruent to n
Less(p, pl, n, k) == IF IsList(pl) THEN k \div Unit(p, pl) + 2 ELSE (n % 4) + 4 * (k \div 4 + 2)
\* where the length of the string stands in the message (0: nowhere)
LenPos(p, pl) ==
    IF IsList(pl) THEN 0
    ELSE LET a == EncPayload(Grow(p, pl, 0))
             b == EncPayload(Grow(p, pl, 4))
             d == CHOOSE i \in 1..Len(a) : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
         IN HeaderSize + (IF BE(p.flags) THEN d - 3 ELSE d)
PutWord(m, at, w) == [i \in 1..Len(m) |-> IF i >= at /\ i < at + 4 THEN w[i - at + 1] ELSE m[i]]

(* The message for n: its length, its first h and its last t bytes (h has   *)
(* to reach one unit into the repetition and t to begin in it).             *)
LongLen(p, pl, n, k) == LET m == Less(p, pl, n, k) IN Len(EncPdu(Grow(p, pl, m))) + (n - m) * Unit(p, pl)
LongHead(p, pl, n, h, t) ==
    LET m == Less(p, pl, n, h + t)
        s == EncPdu(Grow(p, pl, m))
        a == PutWord(SubSeq(s, 1, h), 17, Ser4(BE(p.flags), W32(LongLen(p, pl, n, h + t) - HeaderSize)))
        at == LenPos(p, pl)
    IN IF at = 0 THEN a ELSE PutWord(a, at, Ser4(BE(p.flags), W32(n)))
LongTail(p, pl, n, h, t) ==
    LET s == EncPdu(Grow(p, pl, Less(p, pl, n, h + t))) IN SubSeq(s, Len(s) - t + 1, Len(s))

(* What is known of a long message: length, head, tail, and the range       *)
(* lo+1..hi of bytes in which every byte equals the one u places on.  With  *)
(* lo + u <= Len(head) and hi >= len - Len(tail) that is all of it.         *)
LongRight(p, pl, n, x) ==
    LET h == Len(x.head)
        t == Len(x.tail) IN
    /\ x.u = Unit(p, pl)
    /\ x.len = LongLen(p, pl, n, h + t)
    /\ x.head = LongHead(p, pl, n, h, t)
    /\ x.tail = LongTail(p, pl, n, h, t)
    /\ x.lo + x.u <= h /\ x.hi >= x.len - t

(* A PDU whose payload has more bytes than its header can announce cannot   *)
(* be represented: the size is a signed 32-bit number, as TLC's are, so it  *)
(* is n that is bounded and not the size that is computed.                  *)
MaxSize == 2147483647
LongFitsIn(max, p, pl, n) ==
    LET a == Len(EncPayload(Grow(p, pl, IF IsList(pl) THEN 1 ELSE 0)))
        b == max - (max % 4)
    IN a <= b /\ IF IsList(pl) THEN n - 1 <= (b - a) \div Unit(p, pl) ELSE n <= b - a
LongFits(p, pl, n) == LongFitsIn(MaxSize, p, pl, n)
=============================================================================
