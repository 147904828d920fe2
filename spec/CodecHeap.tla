----------------------------- MODULE CodecHeap -----------------------------
(* The memory behind C09.  PDUs and buffers are lists of cells; encoding    *)
(* and decoding make new ones, a caller may write to what it holds at any   *)
(* time.  `val` is what each object would hold if values were copied at     *)
(* every call (the promise); `mem` is what it does hold.  With Mode "fresh" *)
(* both agree for ever.  A caller may also copy a PDU (Cp), which shares    *)
(* its lists, and knows that it does: `id` names the value of each object.  *)
(* The other modes are the usual mistakes, and each breaks the promise: a   *)
(* decoder that keeps pointing into the bytes                               *)
(* ("alias"), an encoder that hands out its own buffer ("scratch"), a       *)
(* decoder that adds to the lists of a used PDU ("append"), an encoder that *)
(* changes its argument ("clobber"), results remembered by identity of the  *)
(* argument ("memo"), a decoder that writes over the lists of a used PDU    *)
(* ("reuse"), a decoder that keeps equal values once ("dedupe").            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Mode, MaxObjs, MaxSteps, HistLen
VARIABLES mem, objs, id, val, scratch, memo, step
vars == <<mem, objs, id, val, scratch, memo, step>>
Small == {0, 1}

Read(m, ob) == [i \in 1..Len(ob.cells) |-> m[ob.cells[i]]]
Pdus == {i \in 1..Len(objs) : objs[i].k = "pdu"}
Bufs == {i \in 1..Len(objs) : objs[i].k = "buf"}
Fresh(n) == [i \in 1..n |-> Len(mem) + i]

\* what a PDU may hold: one value, or two that may be equal
Values == {<<v>> : v \in Small} \cup (IF Mode \in {"fresh", "dedupe"} THEN {<<v, w>> : v, w \in Small} ELSE {})

Init == /\ mem = <<0, 0>> /\ objs = <<>> /\ id = <<>> /\ val = <<>> /\ step = 0
        /\ scratch = <<1, 2>>                      \* the encoder's own cells (mode "scratch")
        /\ memo = <<>>                             \* argument -> bytes (mode "memo")
Mk == /\ Len(objs) < MaxObjs
      /\ \E v \in Values : /\ mem' = mem \o v /\ objs' = Append(objs, [k |-> "pdu", cells |-> Fresh(Len(v))])
                           /\ val' = Append(val, v)
      /\ id' = Append(id, Len(val) + 1)
      /\ UNCHANGED <<scratch, memo>>
Cp(i) == /\ Len(objs) < MaxObjs
         /\ objs' = Append(objs, objs[i]) /\ id' = Append(id, id[i])
         /\ UNCHANGED <<mem, val, scratch, memo>>
Known(i) == \E n \in 1..Len(memo) : memo[n].i = i
Enc(i) ==
    /\ Len(objs) < MaxObjs
    /\ val' = Append(val, val[id[i]]) /\ id' = Append(id, Len(val) + 1)
    /\ LET r == Read(mem, objs[i]) IN
       CASE Mode = "scratch" /\ Len(r) <= Len(scratch) ->
              /\ mem' = [c \in DOMAIN mem |-> IF c <= Len(r) THEN r[c] ELSE mem[c]]
              /\ objs' = Append(objs, [k |-> "buf", cells |-> SubSeq(scratch, 1, Len(r))]) /\ memo' = memo
         [] Mode = "memo" /\ Known(i) ->
              LET m == memo[CHOOSE n \in 1..Len(memo) : memo[n].i = i].r IN
              /\ mem' = mem \o m /\ objs' = Append(objs, [k |-> "buf", cells |-> Fresh(Len(m))]) /\ memo' = memo
         [] Mode = "clobber" ->
              /\ mem' = [c \in DOMAIN mem |-> IF r # <<>> /\ c = objs[i].cells[1] THEN 0 ELSE mem[c]] \o r
              /\ objs' = Append(objs, [k |-> "buf", cells |-> Fresh(Len(r))]) /\ memo' = memo
         [] OTHER ->
              /\ mem' = mem \o r /\ objs' = Append(objs, [k |-> "buf", cells |-> Fresh(Len(r))])
              /\ memo' = IF Mode = "memo" THEN Append(memo, [i |-> i, r |-> r]) ELSE memo
    /\ UNCHANGED scratch
\* into a used PDU
Dec(i, t) ==
    /\ val' = Append(val, val[id[i]]) /\ id' = [id EXCEPT ![t] = Len(val) + 1]
    /\ LET r == Read(mem, objs[i]) IN
       CASE Mode = "alias"  -> mem' = mem /\ objs' = [objs EXCEPT ![t].cells = objs[i].cells]
         [] Mode = "append" -> mem' = mem \o r /\ objs' = [objs EXCEPT ![t].cells = @ \o Fresh(Len(r))]
         [] Mode = "reuse" /\ Len(r) <= Len(objs[t].cells) ->
              LET c == SubSeq(objs[t].cells, 1, Len(r)) IN
              /\ mem' = [x \in DOMAIN mem |-> IF \E n \in 1..Len(c) : c[n] = x
                                             THEN r[CHOOSE n \in 1..Len(c) : c[n] = x] ELSE mem[x]]
              /\ objs' = [objs EXCEPT ![t].cells = c]
         [] Mode = "dedupe" /\ Len(r) = 2 /\ r[1] = r[2] ->
              mem' = Append(mem, r[1]) /\ objs' = [objs EXCEPT ![t].cells = <<Len(mem) + 1, Len(mem) + 1>>]
         [] OTHER           -> mem' = mem \o r /\ objs' = [objs EXCEPT ![t].cells = Fresh(Len(r))]
    /\ UNCHANGED <<scratch, memo>>
Wr(i) == /\ objs[i].cells # <<>> /\ val[id[i]] # <<>>
         /\ \E v \in Small : /\ mem' = [mem EXCEPT ![objs[i].cells[1]] = v] /\ val' = [val EXCEPT ![id[i]][1] = v]
         /\ UNCHANGED <<objs, id, scratch, memo>>
Next == /\ step < MaxSteps /\ step' = step + 1
        /\ \/ Mk \/ (\E i \in Pdus : Enc(i) \/ Cp(i)) \/ (\E i \in Bufs, t \in Pdus : Dec(i, t)) \/ (\E i \in 1..Len(objs) : Wr(i))
Spec == Init /\ [][Next]_vars

Pure == \A i \in 1..Len(objs) : Read(mem, objs[i]) = val[id[i]]
NoShare == \A i, j \in 1..Len(objs) : id[i] # id[j] =>
              {objs[i].cells[n] : n \in 1..Len(objs[i].cells)} \cap {objs[j].cells[n] : n \in 1..Len(objs[j].cells)} = {}

(* histories for the real code: <<operation, object, target>>               *)
RECURSIVE Hists(_, _)
Hists(kinds, n) ==
    IF n = 0 THEN {<<>>}
    ELSE LET P == {i \in 1..Len(kinds) : kinds[i] = "pdu"}
             B == {i \in 1..Len(kinds) : kinds[i] = "buf"}
             After(op, k) == {<<op>> \o h : h \in Hists(k, n - 1)}
         IN UNION ({After(<<"enc", i, 0>>, Append(kinds, "buf")) : i \in P}
                   \cup {After(<<"dec", i, t>>, kinds) : i \in B, t \in P}
                   \cup {After(<<"dec", i, 0>>, Append(kinds, "pdu")) : i \in B}
                   \cup {After(<<"wr", i, 0>>, kinds) : i \in P \cup B}
                   \cup (IF Cardinality(P) < 3 THEN {After(<<"cp", i, 0>>, Append(kinds, "pdu")) : i \in P} ELSE {})
                   \cup (IF Cardinality(P) < 2 THEN {After(<<"mk", 0, 0>>, Append(kinds, "pdu"))} ELSE {}))
Cases(z) == {[h |-> <<(<<"mk", 0, 0>>)>> \o h] : h \in Hists(<<"pdu">>, HistLen)}
Done == TLCGet("distinct") >= 0 /\ IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases(0))) ELSE TRUE
=============================================================================
