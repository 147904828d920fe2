------------------------------ MODULE MCStruct ------------------------------
(* Line diffs of all pairs of small texts (as cases for the code, too): a   *)
(* diff is empty for equal texts only, and each of the two texts can be     *)
(* read off it.                                                             *)
EXTENDS Struct, Json, IOUtils, FiniteSetsExt
CONSTANT MaxLen
VARIABLES a, b
Chars == {97, 32, 10}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Init == a \in Texts /\ b \in Texts
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

\* the lines of one side: those without a mark and those with its mark
Side(d, mark) ==
    LET ls == SubSeq(Lines(d), 1, Len(Lines(d)) - 1)    \* it ends with a line feed
        is(l, m) == Len(l) >= 3 /\ SubSeq(l, 1, 3) = m
        mine == SelectSeq(ls, LAMBDA l : is(l, mark) \/ (l # <<>> /\ l[1] = Space))
    IN [i \in 1..Len(mine) |-> IF is(mine[i], mark) THEN SubSeq(mine[i], 4, Len(mine[i])) ELSE Tail(mine[i])]
Padded(t, n) == [i \in 1..n |-> LineOf(Lines(t), i)]
DiffOK ==
    LET d == LineDiff(a, b)
        n == LET x == Len(Lines(a)) y == Len(Lines(b)) IN IF x > y THEN x ELSE y IN
    IF a = b THEN d = <<>>
    ELSE Side(d, Mark1) = Padded(a, n) /\ Side(d, Mark2) = Padded(b, n)
Write == IF "OUT" \in DOMAIN IOEnv
         THEN ndJsonSerialize(IOEnv.OUT, SetToSeq({[hx |-> <<x, y>>] : x \in Texts, y \in Texts})) ELSE TRUE
Done == Write /\ TLCGet("stats").distinct = Cardinality(Texts) * Cardinality(Texts)
=============================================================================
