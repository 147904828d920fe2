------------------------------- MODULE Struct -------------------------------
(* Text of a struct and line diff of two texts (C22).  A struct is the      *)
(* sequence of its fields, [n |-> name, v |-> value]; a value has a kind:   *)
(* int, uint (bytes of the number), bool, str, own (it says itself how it   *)
(* prints), oid, struct, list, nil, ref (what a pointer or an interface     *)
(* holds), other (a kind that is not supported).                            *)
EXTENDS Text

Blanks(depth) == [i \in 1..(4 * Min2(depth, 8)) |-> Space]

RECURSIVE VText(_, _)
FieldsText(fs, d) ==
    FoldLeft(LAMBDA acc, f : acc \o NL \o Blanks(d) \o f.n \o <<58, 32>> \o VText(f.v, d + 1), <<>>, fs)
VText(v, d) ==
    CASE v.k = "int"    -> SDec(v.b)
      [] v.k = "uint"   -> Dec(v.b)
      [] v.k = "bool"   -> IF v.b THEN Codes("true") ELSE Codes("false")
      [] v.k = "str"    -> v.b
      [] v.k = "own"    -> v.b
      [] v.k = "oid"    -> IF v.b = <<>> THEN Codes("<empty>") ELSE OidCodes(v.b)
      [] v.k = "struct" -> FieldsText(v.b, d)
      [] v.k = "list"   -> IF v.b = <<>> THEN Codes("<empty>")
                           ELSE FoldLeft(LAMBDA acc, x : acc \o NL \o Blanks(d) \o VText(x, d + 1), <<>>, v.b)
      [] v.k = "nil"    -> Codes("<nil>")
      [] v.k = "ref"    -> VText(v.b, d)
      [] v.k = "other"  -> Codes("unsupported ") \o v.b

RECURSIVE TrimL(_), TrimR(_)
TrimL(t) == IF t # <<>> /\ t[1] = 10 THEN TrimL(Tail(t)) ELSE t
TrimR(t) == IF t # <<>> /\ t[Len(t)] = 10 THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
StructText(v, d) == IF v.k = "struct" THEN TrimR(TrimL(FieldsText(v.b, d))) ELSE Codes("not struct")

Mark1 == <<226, 148, 140>>      \* U+250C
Mark2 == <<226, 148, 148>>      \* U+2514
LineOf(ls, i) == IF i <= Len(ls) THEN ls[i] ELSE <<>>
DiffRow(x, y) == IF x = y THEN <<Space>> \o x \o NL ELSE Mark1 \o x \o NL \o Mark2 \o y \o NL
LineDiff(a, b) ==
    IF a = b THEN <<>>
    ELSE LET l1 == Lines(a)
             l2 == Lines(b)
             m == IF Len(l1) > Len(l2) THEN Len(l1) ELSE Len(l2)
         IN FoldLeft(LAMBDA acc, i : acc \o DiffRow(LineOf(l1, i), LineOf(l2, i)), <<>>, [i \in 1..m |-> i])
=============================================================================
