-------------------------------- MODULE Oid --------------------------------
(* Object identifiers: sequences of 32-bit words (see Bytes).  Order,      *)
(* prefixes, and the dotted text form with its parser.                     *)
EXTENDS Bytes

Min2(a, b) == IF a < b THEN a ELSE b

IsPrefixOf(s, o) == Len(s) <= Len(o) /\ \A i \in 1..Len(s) : s[i] = o[i]

(* Lexicographic order, a proper prefix being smaller.                     *)
OidLess(a, b) ==
    \/ \E i \in 1..Min2(Len(a), Len(b)) :
          WLess(a[i], b[i]) /\ \A j \in 1..(i-1) : a[j] = b[j]
    \/ Len(a) < Len(b) /\ IsPrefixOf(a, b)

OidCompare(a, b) == IF a = b THEN 0 ELSE IF OidLess(a, b) THEN -1 ELSE 1

(* The parser, as an automaton over character codes.  State: phase in "start"   *)
(* (nothing read), "sep" (a sub-identifier must begin), "num" (inside one) *)
(* or "bad"; the OID so far; the current number.                           *)
MaxSubids == 128
Dot == 46
IsDigit(c) == c \in 48..57

MulStep(acc, byte) ==    \* acc = <<bytes built so far (msb first), carry>>, from the last byte
    LET x == byte * 10 + acc[2] IN <<(<<x % 256>>) \o acc[1], x \div 256>>
\* n*10+d on a 4-byte word; <<word, overflow>>
MulAdd(w, d) == FoldLeft(MulStep, <<(<<>>), d>>, <<w[4], w[3], w[2], w[1]>>)

PInit == [ph |-> "start", o |-> <<>>, n |-> W32(0)]
PBad == [ph |-> "bad", o |-> <<>>, n |-> W32(0)]
PDigit(st, c, n0) ==
    LET r == MulAdd(n0, c - 48) IN
    IF r[2] # 0 THEN PBad ELSE [ph |-> "num", o |-> st.o, n |-> r[1]]
PStep(st, c) ==
    CASE st.ph = "bad" -> PBad
      [] st.ph = "start" -> IF c = Dot THEN [st EXCEPT !.ph = "lead"]
                            ELSE IF IsDigit(c) THEN PDigit(st, c, W32(0)) ELSE PBad
      [] st.ph \in {"lead", "sep"} -> IF IsDigit(c) THEN PDigit(st, c, W32(0)) ELSE PBad
      [] st.ph = "num" -> IF c = Dot THEN [ph |-> "sep", o |-> Append(st.o, st.n), n |-> W32(0)]
                          ELSE IF IsDigit(c) THEN PDigit(st, c, st.n) ELSE PBad
\* result: [ok |-> BOOLEAN, o |-> OID]
OidParse(cs) ==
    LET st == FoldLeft(PStep, PInit, cs)
        o  == IF st.ph = "num" THEN Append(st.o, st.n) ELSE st.o
    IN IF st.ph \in {"bad", "sep"} \/ Len(o) > MaxSubids THEN [ok |-> FALSE, o |-> <<>>]
       ELSE [ok |-> TRUE, o |-> o]

\* OIDs from small numbers, for models
O(seq) == [i \in 1..Len(seq) |-> W32(seq[i])]
=============================================================================
