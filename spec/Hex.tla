-------------------------------- MODULE Hex --------------------------------
(* Hex dumps: rows of up to four bytes, each with the offset of its first   *)
(* byte.  Trailing blanks of a row carry nothing.                           *)
EXTENDS Text, FiniteSets

HexWord(w) == HexByte(w[1]) \o HexByte(w[2]) \o HexByte(w[3]) \o HexByte(w[4])
HexOffset(n) == HexWord(W32(n))

\* row of the bytes bs, the first of which is at offset off
WordRow(w, bs) == HexWord(w) \o <<32, 32>> \o Join([i \in 1..Len(bs) |-> HexByte(bs[i])], <<32>>)
Row(off, bs) == WordRow(W32(off), bs)

Chunk(bs, k) == SubSeq(bs, 4 * k - 3, Min2(4 * k, Len(bs)))     \* k-th row of bs
NRows(n) == (n + 3) \div 4

(* Lines of the dump of d = data[i1..i2), each trimmed.                     *)
DumpLines(prefix, i1, d) ==
    IF d = <<>> THEN <<TrimRight(prefix \o HexOffset(i1))>>
    ELSE [k \in 1..NRows(Len(d)) |-> TrimRight(prefix \o Row(i1 + 4 * (k - 1), Chunk(d, k)))]

RangeOK(i1, i2, n) == 0 <= i1 /\ i1 <= i2 /\ i2 <= n
RangeError(prefix, i1, i2, n) ==
    prefix \o Codes("out of range: i1 = ") \o DecInt(i1) \o Codes(", i2 = ") \o DecInt(i2)
    \o Codes(", len(data) = ") \o DecInt(n)

(* Diff: every row of both; equal rows once, unequal ones as a marked pair. *)
Mark1 == <<226, 148, 140>>      \* U+250C
Mark2 == <<226, 148, 148>>      \* U+2514
Max2(a, b) == IF a < b THEN b ELSE a
DiffLines(a, b) ==
    FoldLeft(LAMBDA acc, k :
                LET ra == Row(4 * (k - 1), Chunk(a, k))
                    rb == Row(4 * (k - 1), Chunk(b, k))
                IN IF Chunk(a, k) = Chunk(b, k)
                   THEN Append(acc, TrimRight(<<32>> \o ra))
                   ELSE acc \o <<TrimRight(Mark1 \o ra), TrimRight(Mark2 \o rb)>>,
             <<>>, [k \in 1..NRows(Max2(Len(a), Len(b))) |-> k])

(* Dumps of any size.  TLC cannot hold 16 MiB, but it can tell any single   *)
(* line of the dump of bytes that repeat base, changed at the places eds    *)
(* (pairs of an offset and a byte) on the second side of a diff.  MCHex     *)
(* checks this against DumpLines and DiffLines.  Rows and lines from 0.     *)
FarByte(base, i) == base[(i % Len(base)) + 1]
FarEdit(base, eds, i) == IF \E e \in eds : e[1] = i THEN (CHOOSE e \in eds : e[1] = i)[2] ELSE FarByte(base, i)
FarChunk(base, eds, l, at0) == [j \in 1..(IF l <= at0 THEN 0 ELSE Min2(4, l - at0)) |-> FarEdit(base, eds, at0 + j - 1)]
FarDumpLine(prefix, base, i1, i2, k) ==
    TrimRight(prefix \o (IF i1 = i2 THEN HexOffset(i1) ELSE Row(i1 + 4 * k, FarChunk(base, {}, i2, i1 + 4 * k))))
FarDumpCount(i1, i2) == IF i1 = i2 THEN 1 ELSE NRows(i2 - i1)

\* rows below the shorter end that differ; every row from FarCut on does
FarCut(la, lb) == IF la = lb THEN NRows(la) ELSE Min2(la, lb) \div 4
FarDiffer(base, eds, la, lb) ==
    {e[1] \div 4 : e \in {x \in eds : x[2] # FarByte(base, x[1]) /\ x[1] < la /\ x[1] \div 4 < FarCut(la, lb)}}
FarLineOf(d, cut, r) == r + Cardinality({x \in d : x < r}) + (IF r > cut THEN r - cut ELSE 0)
FarDiffCount(base, eds, la, lb) == FarLineOf(FarDiffer(base, eds, la, lb), FarCut(la, lb), NRows(Max2(la, lb)))
FarDiffLine(base, eds, la, lb, k) ==
    LET d == FarDiffer(base, eds, la, lb)
        cut == FarCut(la, lb)
        at0 == FarLineOf(d, cut, cut)
        r == IF k >= at0 THEN cut + (k - at0) \div 2
             ELSE CHOOSE x \in Max2(0, k - Cardinality(d))..k : FarLineOf(d, cut, x) <= k /\ k < FarLineOf(d, cut, x + 1)
        first == k = FarLineOf(d, cut, r)
        a == Row(4 * r, FarChunk(base, {}, la, 4 * r))
        b == Row(4 * r, FarChunk(base, eds, lb, 4 * r))
    IN TrimRight(IF r >= cut \/ r \in d THEN (IF first THEN Mark1 \o a ELSE Mark2 \o b) ELSE <<32>> \o a)
=============================================================================
