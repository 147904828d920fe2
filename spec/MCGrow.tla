------------------------------- MODULE MCGrow -------------------------------
(* Large trees and OIDs as images of small ones.  A symbol of a small OID   *)
(* stands for a block of sub-identifiers (its first one identifies it), and *)
(* a crowd symbol, which only comes last, for N brothers without children.  *)
(* Every tree over the small universe and every operation: what OidTree     *)
(* says of the large tree is what it says of the small one.  This is what   *)
(* lets the driver put questions to trees of any size and record them as    *)
(* the questions about the small tree that they are (harness/grow.go).      *)
EXTENDS OidTree, TLC

CONSTANTS N             \* brothers of a crowd
VARIABLE ns
vars == <<ns, nodes, data>>

Ordinary == {0, 10}
Crowd == 20
After == 30             \* a symbol beyond the crowd
Block(s) == CASE s = 0 -> <<0, 5>> [] s = 10 -> <<10, 0, 30>> [] s = Crowd -> <<Crowd + N - 1>> [] OTHER -> <<s>>
Heads == UNION {[1..k -> Ordinary] : k \in 0..1}
U == {Append(h, s) : h \in Heads, s \in Ordinary \cup {Crowd}} \cup {<<After>>}
Bounds == {<<>>} \cup U \cup {Append(u, 0) : u \in U}
Wd(o) == [i \in 1..Len(o) |-> W32(o[i])]
IsCrowd(o) == o # <<>> /\ o[Len(o)] = Crowd
Begin(o) == SubSeq(o, 1, Len(o) - 1)

RECURSIVE Large(_)      \* a crowd symbol inside an OID is its last brother
Large(o) == IF o = <<>> THEN <<>> ELSE Large(Begin(o)) \o Wd(Block(o[Len(o)]))
Brother(o, i) == Append(Large(Begin(o)), W32(Crowd + i))
Members(o) == IF IsCrowd(o) THEN {Brother(o, i) : i \in 0..(N - 1)} ELSE {Large(o)}
Cut(o) == IF IsCrowd(o) \/ o = <<>> THEN Members(o)      \* where a subtree is cut off
          ELSE {Append(Large(Begin(o)), W32(o[Len(o)]))}
LargeSet(S) == UNION {Ancestry(m) : m \in UNION {Members(o) : o \in S}}
Small(S) == {Wd(o) : o \in S}

Init == TreeInit /\ ns = {}
Next == /\ \E o \in U \ ns : (Begin(o) = <<>> \/ Begin(o) \in ns) /\ ns' = ns \cup {o}
        /\ UNCHANGED <<nodes, data>>
Spec == Init /\ [][Next]_vars

PresentOK == \A o \in U : \A m \in Members(o) : Present(LargeSet(ns), m) = Present(ns, o)
AddOK == \A o \in U :
    /\ \A m \in Members(o) : IsNew(LargeSet(ns), m) = IsNew(ns, o)
    /\ UNION {Added(LargeSet(ns), m) : m \in Members(o)} = LargeSet(Added(ns, o))
RemOK == \A o \in U :
    /\ \A m \in Cut(o) : (m \in LargeSet(ns)) = (o \in ns)
    /\ LargeSet(ns) \ UNION {Under(m, LargeSet(ns)) : m \in Cut(o)} = LargeSet(Removed(ns, o))
\* every sub-identifier with the same others before it, or after it
RECURSIVE Even(_), Uneven(_)
Even(o) == IF o = <<>> THEN <<>> ELSE Even(Begin(o)) \o Wd(<<7, 7, o[Len(o)]>>)
Uneven(o) == IF o = <<>> THEN <<>> ELSE Uneven(Begin(o)) \o Wd(<<o[Len(o)], 7, 7>>)
\* the bounds of a search: an end before a crowd is before its first brother, a
\* start after a crowd is after its last one
Start(a, inc) == IF IsCrowd(a) THEN Brother(a, IF inc THEN 0 ELSE N - 1) ELSE Large(a)
End(b) == IF IsCrowd(b) THEN Brother(b, 0) ELSE Large(b)
Shown1(o) == IF IsCrowd(o) THEN Brother(o, 0) ELSE Large(o)
NextOK == LET small == Small(ns)
              leaves == {o \in ns : Wd(o) \in Leaves(small)}
              big == Leaves(LargeSet(ns)) IN
    /\ big = UNION {Members(o) : o \in leaves}
    /\ \A a \in Bounds, b \in Bounds, inc \in BOOLEAN :
        LET c == {o \in leaves : InRange(Wd(o), Wd(a), Wd(b), inc)}
            k == {m \in big : InRange(m, Start(a, inc), End(b), inc)} IN
        IF c = {} THEN k = {}
        ELSE LET o == CHOOSE x \in c : Wd(x) = Least({Wd(y) : y \in c}) IN k # {} /\ Least(k) = Shown1(o)
OrderOK == ns # {} \/ \A a \in Bounds, b \in Bounds :
    /\ OidLess(Wd(a), Wd(b)) = OidLess(Large(a), Large(b))
    /\ IsPrefixOf(Wd(a), Wd(b)) = IsPrefixOf(Large(a), Large(b))
    /\ OidLess(Wd(a), Wd(b)) = OidLess(Even(a), Even(b))
    /\ IsPrefixOf(Wd(a), Wd(b)) = IsPrefixOf(Even(a), Even(b))
    /\ OidLess(Wd(a), Wd(b)) = OidLess(Uneven(a), Uneven(b))
    /\ IsPrefixOf(Wd(a), Wd(b)) = IsPrefixOf(Uneven(a), Uneven(b))
=============================================================================
