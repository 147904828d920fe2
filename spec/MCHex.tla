------------------------------- MODULE MCHex -------------------------------
(* Hex itself: a dump is written row by row; reading the rows back gives    *)
(* the bytes, each once and in order, and from the diff of two byte strings *)
(* both can be read back (C17).                                             *)
EXTENDS Hex, TLC, Json, IOUtils

CONSTANTS MaxLen, DumpLen
VARIABLES da, db, row, out      \* da: the data; db: the other data; row: rows written; out: the lines so far
vars == <<da, db, row, out>>

Vals == {0, 175}
Data(n) == UNION {[1..k -> Vals] : k \in 0..n}
Init == /\ da \in Data(MaxLen) /\ db \in Data(MaxLen) /\ row = 0 /\ out = <<>>
NDiff == NRows(Max2(Len(da), Len(db)))
Write == /\ row < NDiff /\ row' = row + 1
         /\ LET a == Chunk(da, row + 1)  b == Chunk(db, row + 1) IN
            out' = out \o (IF a = b THEN <<TrimRight(<<32>> \o Row(4 * row, a))>>
                           ELSE <<TrimRight(Mark1 \o Row(4 * row, a)), TrimRight(Mark2 \o Row(4 * row, b))>>)
         /\ UNCHANGED <<da, db>>
Spec == Init /\ [][Write]_vars

(* reading back *)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE c - 55
\* the bytes of a row without its mark: 8 digits of offset, two blanks, pairs
RowBytes(t) == IF Len(t) < 12 THEN <<>>
               ELSE [k \in 1..((Len(t) - 10 + 1) \div 3) |-> 16 * HexVal(t[10 + 3 * k - 2]) + HexVal(t[10 + 3 * k - 1])]
RowOff(t) == FoldLeft(LAMBDA acc, c : 16 * acc + HexVal(c), 0, SubSeq(t, 1, 8))
IsMark(t, m) == Len(t) >= 3 /\ SubSeq(t, 1, 3) = m
Bare(t) == IF t[1] = 32 THEN Tail(t) ELSE SubSeq(t, 4, Len(t))
Side(ls, other) == FoldLeft(LAMBDA acc, t : IF IsMark(t, other) THEN acc ELSE acc \o RowBytes(Bare(t)), <<>>, ls)
Upto(d) == SubSeq(d, 1, Min2(4 * row, Len(d)))
ReadBack == Side(out, Mark2) = Upto(da) /\ Side(out, Mark1) = Upto(db)
Agrees == row = NDiff => out = DiffLines(da, db)
EmptyIffEqual == row = NDiff => ((\A i \in 1..Len(out) : out[i][1] = 32) <=> da = db)

DumpOK == (row = 0 /\ db = <<>>) =>
    \A i1 \in 0..Len(da) : \A i2 \in i1..Len(da) :
        LET ls == DumpLines(<<>>, i1, SubSeq(da, i1 + 1, i2)) IN
        /\ FoldLeft(LAMBDA acc, t : acc \o RowBytes(t), <<>>, ls) = SubSeq(da, i1 + 1, i2)
        /\ \A k \in 1..Len(ls) : RowOff(ls[k]) = i1 + 4 * (k - 1)

FarBases == {<<7>>, <<0, 175>>, <<1, 2, 3>>, <<1, 1, 1, 1, 2>>}
FarEdits == {{}, {<<0, 9>>}, {<<3, 175>>, <<4, 175>>}, {<<1, 1>>, <<9, 1>>, <<13, 7>>}, {<<8, 7>>, <<11, 0>>}}
FarSide(base, eds, l) == [i \in 1..l |-> FarEdit(base, eds, i - 1)]
FarOK == (row = 0 /\ da = <<>> /\ db = <<>>) => \A base \in FarBases :
    /\ \A i2 \in 0..15 : \A i1 \in 0..i2 :
        LET ls == DumpLines(<<120, 32>>, i1, SubSeq(FarSide(base, {}, i2), i1 + 1, i2)) IN
        ls = [k \in 1..FarDumpCount(i1, i2) |-> FarDumpLine(<<120, 32>>, base, i1, i2, k - 1)]
    /\ \A eds \in FarEdits : \A la, lb \in 0..15 :
        LET ls == DiffLines(FarSide(base, {}, la), FarSide(base, eds, lb)) IN
        ls = [k \in 1..FarDiffCount(base, eds, la, lb) |-> FarDiffLine(base, eds, la, lb, k - 1)]

(* cases: pairs for the diff *)
Cases(z) == {[hx |-> <<x, y>>] : x \in Data(DumpLen), y \in Data(DumpLen)}
Done == TLCGet("distinct") >= 0 /\ IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases(0))) ELSE TRUE
=============================================================================
