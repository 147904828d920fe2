------------------------------- MODULE MCOid -------------------------------
(* Oid itself.  Mode "order": the order of Oid is a strict total order on   *)
(* every triple of small OIDs, with the empty OID least and every prefix    *)
(* below its extensions (C10).  Mode "parse": the parser automaton reads a  *)
(* text one character at a time; at every point it says what a declarative  *)
(* grammar says, and it inverts the text form (C12).                        *)
EXTENDS Text, TLC, Json, IOUtils

CONSTANTS Mode, MaxLen, Wide
VARIABLES oa, ob, oc, text, ps
vars == <<oa, ob, oc, text, ps>>

(* order *)
Words == IF Wide THEN {W32(0), W32(1), <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>}
         ELSE {W32(0), <<127, 255, 255, 255>>, <<255, 0, 0, 1>>}
Universe == UNION {[1..n -> Words] : n \in 0..3}
More == {O(<<1, 3, 6, 1>>), O(<<1, 3, 6, 1, 4>>), O(<<1, 3, 6, 1, 4, 1>>), O(<<1, 3, 6, 2>>), O(<<256>>), O(<<65536, 1>>), O(<<255, 255>>)}
U == Universe \cup More
Trichotomy == (IF oa = ob THEN 1 ELSE 0) + (IF OidLess(oa, ob) THEN 1 ELSE 0) + (IF OidLess(ob, oa) THEN 1 ELSE 0) = 1
Transitive == OidLess(oa, ob) /\ OidLess(ob, oc) => OidLess(oa, oc)
Monotone == OidLess(oa, ob) /\ OidLess(ob, oc) /\ IsPrefixOf(oa, oc) => IsPrefixOf(oa, ob)     \* oa subtree is an interval
PrefixBelow == IsPrefixOf(oa, ob) => oa = ob \/ OidLess(oa, ob)
Antisym == OidCompare(oa, ob) = -OidCompare(ob, oa)
OrderOK == Mode = "order" => Trichotomy /\ Transitive /\ Monotone /\ PrefixBelow /\ Antisym

(* parse *)
Alphabet == {46, 48, 49, 52, 57} \cup (IF Wide THEN {43, 45, 32} ELSE {43})     \* . 0 1 4 9 + - blank
Max32 == Codes("4294967295")
Rep(s, n) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
Starts == {<<>>, Codes("429496729"), Codes("1.3.429496729"), Codes("0000000429496729"), Codes("1.3"), Codes(".1."), Rep(Codes("1."), 127), Rep(Codes("1."), 126) \o Codes("9")}
          \cup (IF Wide THEN {Codes("1844674407370955161"), <<46>> \o Rep(Codes("0."), 127), Codes("99999999999999")} ELSE {})

\* the grammar, said without the automaton
Split(t) == LET ds == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = Dot)
                cut == <<0>> \o ds \o <<Len(t) + 1>>
            IN [k \in 1..(Len(ds) + 1) |-> SubSeq(t, cut[k] + 1, cut[k + 1] - 1)]
RECURSIVE Strip(_)
Strip(t) == IF Len(t) > 1 /\ t[1] = 48 THEN Strip(Tail(t)) ELSE t
NumOK(t) == /\ t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])
            /\ LET d == Strip(t) IN Len(d) < 10 \/ (Len(d) = 10 /\ ~WLess(Max32, d))
Body(t) == IF t # <<>> /\ t[1] = Dot THEN Tail(t) ELSE t
Parts(t) == Split(Body(t))
InGrammar(t) == Body(t) = <<>> \/ LET q == Parts(t) IN Len(q) <= MaxSubids /\ \A i \in 1..Len(q) : NumOK(q[i])
Canon(t) == IF Body(t) = <<>> THEN <<>> ELSE LET q == Parts(t) IN Join([i \in 1..Len(q) |-> Strip(q[i])], <<Dot>>)
Verdict == OidParse(text)
ParseOK == Mode = "parse" => /\ LET v == Verdict IN v.ok = InGrammar(text) /\ (v.ok => OidCodes(v.o) = Canon(text))
                             /\ ps = FoldLeft(PStep, PInit, text)
\* once bad, always bad
Absorbing == [][ps.ph = "bad" => ps'.ph = "bad"]_vars
InverseOK == Mode = "order" /\ oc = <<>> /\ ob = <<>> => OidParse(OidCodes(oa)) = [ok |-> TRUE, o |-> oa] /\ OidParse(<<Dot>> \o OidCodes(oa)) = [ok |-> TRUE, o |-> oa]

Init == IF Mode = "order" THEN /\ oa \in U /\ ob = <<>> /\ oc = <<>> /\ text = <<>> /\ ps = PInit
        ELSE /\ oa = <<>> /\ ob = <<>> /\ oc = <<>>
             /\ text \in Starts /\ ps = FoldLeft(PStep, PInit, text)
Extra(s) == IF s = <<>> THEN MaxLen ELSE IF Len(s) > 100 THEN 1 ELSE 3
Fits == \E s \in Starts : Len(text) < Len(s) + Extra(s) /\ IsPrefixOf(s, text)
Pair == Mode = "order" /\ ob = <<>> /\ oc = <<>> /\ ob' \in U /\ oc' \in U /\ UNCHANGED <<oa, text, ps>>
Char == /\ Mode = "parse" /\ Fits
        /\ \E ch \in Alphabet : text' = Append(text, ch) /\ ps' = PStep(ps, ch)
        /\ UNCHANGED <<oa, ob, oc>>
Next == Pair \/ Char
Spec == Init /\ [][Next]_vars

OCases(z) == {[o |-> x] : x \in U}
RECURSIVE Ext(_, _)
Ext(S, n) == IF n = 0 THEN S ELSE S \cup Ext({Append(t, ch) : t \in S, ch \in Alphabet}, n - 1)
PCases(z) == {[s |-> t] : t \in UNION {Ext({s}, Extra(s)) : s \in Starts}}
Done == TLCGet("distinct") >= 0 /\ IF "OUT" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.OUT, IF Mode = "order" THEN SetToSeq(OCases(0)) ELSE SetToSeq(PCases(0))) ELSE TRUE
=============================================================================
