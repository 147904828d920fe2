------------------------------- MODULE OidHeap -------------------------------
(* OIDs in memory: arrays, and views (array, offset, length, capacity) onto *)
(* them.  A caller may take parts of an OID, write to it and append to it;  *)
(* Clone and Cat make a view onto an array of its own.                      *)
EXTENDS Oid

VARIABLES arrs, objs
heapVars == <<arrs, objs>>

View(as, v) == SubSeq(as[v.a], v.off + 1, v.off + v.len)
Views(as, os) == [i \in 1..Len(os) |-> View(as, os[i])]
Content(i) == View(arrs, objs[i])

HeapInit == arrs = <<>> /\ objs = <<>>

Fresh(c, cap) ==
    /\ arrs' = Append(arrs, c \o [i \in 1..(cap - Len(c)) |-> W32(0)])
    /\ objs' = Append(objs, [a |-> Len(arrs) + 1, off |-> 0, len |-> Len(c), cap |-> cap])

New(c, cap) == Fresh(c, cap)
Slice(i, lo, hi) ==
    /\ hi <= objs[i].len
    /\ objs' = Append(objs, [a |-> objs[i].a, off |-> objs[i].off + lo, len |-> hi - lo, cap |-> objs[i].cap - lo])
    /\ arrs' = arrs
Clone(i, cap) == Fresh(Content(i), cap)
Cat(i, subs, cap) == Fresh(Content(i) \o subs, cap)
Write(i, k, w) ==
    /\ k <= objs[i].len
    /\ arrs' = [arrs EXCEPT ![objs[i].a][objs[i].off + k] = w]
    /\ objs' = objs
Grow(i, w, cap) ==
    IF objs[i].len < objs[i].cap
    THEN /\ arrs' = [arrs EXCEPT ![objs[i].a][objs[i].off + objs[i].len + 1] = w]
         /\ objs' = [objs EXCEPT ![i].len = @ + 1]
    ELSE LET c == Append(Content(i), w) IN
         /\ arrs' = Append(arrs, c \o [k \in 1..(cap - Len(c)) |-> W32(0)])
         /\ objs' = [objs EXCEPT ![i] = [a |-> Len(arrs) + 1, off |-> 0, len |-> Len(c), cap |-> cap]]
=============================================================================
