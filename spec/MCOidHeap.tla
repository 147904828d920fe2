------------------------------ MODULE MCOidHeap ------------------------------
(* OIDs in memory, exhaustively for a few objects: an OID made by Clone or  *)
(* Cat is independent of every other (C11), and the models of the two usual *)
(* mistakes (a clone that is the same slice, a concatenation that appends   *)
(* in place when there is room) are not.                                    *)
EXTENDS OidHeap, FiniteSets, TLC

CONSTANTS MaxObjs, MaxLen, CatMode    \* CatMode: "fresh", "inplace", "alias0" (nothing appended: the argument itself)
VARIABLES made      \* objects made by Clone and Cat and not sliced from since: nobody else may reach them

Words == {W32(1), W32(2)}
Init == HeapInit /\ made = {}
Room == Len(objs) < MaxObjs
NewI == Len(objs) + 1

DoNew == Room /\ \E c \in {<<>>, <<W32(1)>>, <<W32(1), W32(2)>>}, cap \in 0..MaxLen :
            cap >= Len(c) /\ New(c, cap) /\ made' = made
DoSlice == Room /\ \E i \in 1..Len(objs) : \E lo \in 0..objs[i].len : \E hi \in lo..objs[i].len :
            Slice(i, lo, hi) /\ made' = made \ {i}
DoClone == Room /\ \E i \in 1..Len(objs) :
            IF CatMode = "aliasclone"
            THEN objs' = Append(objs, objs[i]) /\ arrs' = arrs /\ made' = made \cup {NewI}
            ELSE Clone(i, objs[i].len) /\ made' = made \cup {NewI}
CatInPlace(i, subs) ==
    IF objs[i].len + Len(subs) <= objs[i].cap
    THEN /\ arrs' = [arrs EXCEPT ![objs[i].a] = [k \in DOMAIN @ |->
                        IF k > objs[i].off + objs[i].len /\ k <= objs[i].off + objs[i].len + Len(subs)
                        THEN subs[k - objs[i].off - objs[i].len] ELSE @[k]]]
         /\ objs' = Append(objs, [objs[i] EXCEPT !.len = @ + Len(subs)])
    ELSE Cat(i, subs, objs[i].len + Len(subs))
DoCat == Room /\ \E i \in 1..Len(objs) : \E subs \in {<<>>, <<W32(1)>>, <<W32(2)>>} :
            /\ objs[i].len + Len(subs) <= MaxLen
            /\ made' = made \cup {NewI}
            /\ CASE CatMode = "inplace" -> CatInPlace(i, subs)
                 [] CatMode = "alias0" /\ subs = <<>> -> objs' = Append(objs, objs[i]) /\ arrs' = arrs
                 [] OTHER -> Cat(i, subs, objs[i].len + Len(subs))
DoWrite == \E i \in 1..Len(objs) : \E k \in 1..objs[i].len, w \in Words : Write(i, k, w) /\ made' = made
DoGrow == \E i \in 1..Len(objs) : objs[i].len < MaxLen /\ (objs[i].len = objs[i].cap => Len(arrs) <= MaxObjs)
            /\ \E w \in Words : Grow(i, w, MaxLen) /\ made' = made
Next == DoNew \/ DoSlice \/ DoClone \/ DoCat \/ DoWrite \/ DoGrow
Spec == Init /\ [][Next]_<<arrs, objs, made>>

\* a step changes the content of a made object only if it is the object written to
Changed == {j \in 1..Len(objs) : View(arrs, objs[j]) # View(arrs', objs'[j])}
Written == {i \in 1..Len(objs) : \/ \E k \in 1..objs[i].len, w \in Words : Write(i, k, w)
                                 \/ objs[i].len < MaxLen /\ \E w \in Words : Grow(i, w, MaxLen)}
Independent == [][\A j \in Changed : j \in made => Written = {j}]_<<arrs, objs, made>>
\* and a write to a made object changes no other
Harmless == [][\A j \in made : Written = {j} => Changed \subseteq {j}]_<<arrs, objs, made>>
\* right content at birth, arguments untouched
Born == [][Len(objs') > Len(objs) => /\ \A j \in 1..Len(objs) : View(arrs', objs'[j]) = View(arrs, objs[j])
                                     /\ Len(objs') = Len(objs) + 1]_<<arrs, objs, made>>
NoShare == \A i, j \in 1..Len(objs) : i # j /\ i \in made /\ j \in made => objs[i].a # objs[j].a
=============================================================================
