-------------------------------- MODULE Text --------------------------------
(* Text as sequences of byte codes, so that any byte string is a text.      *)
EXTENDS Oid, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
              31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)])
Codes(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

NL == <<10>>
Space == 32

Dec(w) == LET d == Digits(w) IN [i \in 1..Len(d) |-> 48 + d[i]]
SDec(w) == IF Negative(w) THEN <<45>> \o Dec(Neg(w)) ELSE Dec(w)
DecByte(n) == Dec(<<n>>)
DecInt(n) == IF n < 0 THEN <<45>> \o Dec(W32(-n)) ELSE Dec(W32(n))

Join(seqs, sep) ==
    FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN sep ELSE <<>>) \o seqs[i], <<>>, [i \in 1..Len(seqs) |-> i])

OidCodes(o) == Join([i \in 1..Len(o) |-> Dec(o[i])], <<46>>)

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
HexByte(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>

RECURSIVE TrimRight(_)
TrimRight(t) == IF t # <<>> /\ t[Len(t)] = Space THEN TrimRight(SubSeq(t, 1, Len(t) - 1)) ELSE t

\* split at newlines
SplitStep(acc, c) == IF c = 10 THEN Append(acc, <<>>)
                     ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)]
Lines(t) == FoldLeft(SplitStep, <<(<<>>)>>, t)
TrimLines(t) == LET ls == Lines(t) IN [i \in 1..Len(ls) |-> TrimRight(ls[i])]
=============================================================================
