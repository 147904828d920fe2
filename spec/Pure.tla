-------------------------------- MODULE Pure --------------------------------
(* The calls behind C21: functions of their arguments, called by several    *)
(* processes, whose results the callers keep and may overwrite.  A result   *)
(* is a cell of memory.  With Mode "fresh" every result is right when it is *)
(* returned and stays so unless its owner writes to it.  The other modes    *)
(* are ways to keep state between calls, and each breaks that: a shared     *)
(* buffer in which results are made ("scratch"), a memory of results with   *)
(* too coarse a key ("memo"), one that hands out what it remembers          *)
(* ("shared"), a table that is announced before it is filled ("lazy"), and  *)
(* a result that lies in its argument ("alias").                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Mode, Procs, MaxCalls, HistLen
VARIABLES pc, cells, held, scratch, cache, ready, table
vars == <<pc, cells, held, scratch, cache, ready, table>>

Args == 1..3
F(a) == 10 + a
Key(a) == IF Mode = "memo" THEN a % 2 ELSE a
Calls == Cardinality(held) + Cardinality({p \in Procs : pc[p].at # "idle"})

Idle == [at |-> "idle", a |-> 0]
Init == /\ pc = [p \in Procs |-> Idle]
        /\ cells = [a \in 1..3 |-> F(a)]            \* the arguments lie here (mode "alias")
        /\ held = {} /\ scratch = 0 /\ cache = [k \in 0..3 |-> 0] /\ ready = FALSE /\ table = FALSE

Gets(c, a) == held' = held \cup {[c |-> c, a |-> a, n |-> Cardinality(held), w |-> FALSE]}
New(v, a) == cells' = Append(cells, v) /\ Gets(Len(cells) + 1, a)

Start(p, a) ==
    /\ pc[p].at = "idle" /\ Calls < MaxCalls
    /\ CASE Mode = "fresh" -> New(F(a), a) /\ UNCHANGED <<pc, scratch, cache, ready, table>>
         [] Mode = "alias" -> Gets(a, a) /\ UNCHANGED <<cells, pc, scratch, cache, ready, table>>
         [] Mode = "scratch" -> /\ scratch' = F(a) /\ pc' = [pc EXCEPT ![p] = [at |-> "copy", a |-> a]]
                                /\ UNCHANGED <<cells, held, cache, ready, table>>
         [] Mode \in {"memo", "shared"} ->
              /\ IF cache[Key(a)] = 0
                 THEN New(F(a), a) /\ cache' = [cache EXCEPT ![Key(a)] = Len(cells) + 1]
                 ELSE /\ cache' = cache
                      /\ IF Mode = "memo" THEN New(cells[cache[Key(a)]], a) ELSE Gets(cache[Key(a)], a) /\ cells' = cells
              /\ UNCHANGED <<pc, scratch, ready, table>>
         [] Mode = "lazy" ->
              IF ~ready THEN /\ ready' = TRUE /\ pc' = [pc EXCEPT ![p] = [at |-> "fill", a |-> a]]
                             /\ UNCHANGED <<cells, held, scratch, cache, table>>
              ELSE New(IF table THEN F(a) ELSE 0, a) /\ UNCHANGED <<pc, scratch, cache, ready, table>>
Goes(p) ==
    /\ pc[p].at # "idle" /\ pc' = [pc EXCEPT ![p] = Idle]
    /\ New(IF pc[p].at = "copy" THEN scratch ELSE F(pc[p].a), pc[p].a)
    /\ table' = (table \/ pc[p].at = "fill")
    /\ UNCHANGED <<scratch, cache, ready>>
\* the owner of a result writes to it
Write(h) == /\ ~h.w
            /\ cells' = [cells EXCEPT ![h.c] = 0]
            /\ held' = (held \ {h}) \cup {[h EXCEPT !.w = TRUE]}
            /\ UNCHANGED <<pc, scratch, cache, ready, table>>
Next == \/ \E p \in Procs : Goes(p) \/ \E a \in Args : Start(p, a)
        \/ \E h \in held : Write(h)
Spec == Init /\ [][Next]_vars

Kept == \A h \in held : ~h.w => cells[h.c] = F(h.a)

(* histories of one caller as cases: <<"c", argument>> or <<"w", result>>   *)
Steps == {<<"c", a>> : a \in Args} \cup {<<"w", i>> : i \in 1..(HistLen - 1)}
Made(h) == Cardinality({i \in 1..Len(h) : h[i][1] = "c"})
Sensible(h) == /\ \A i \in 1..Len(h) : h[i][1] = "w" => h[i][2] <= Made(SubSeq(h, 1, i - 1))
               /\ Made(h) > 1
               /\ h[Len(h)][1] = "c"
Histories == {h \in UNION {[1..k -> Steps] : k \in 2..HistLen} : Sensible(h)}
Done == TLCGet("stats").distinct > 0 /\ IF "OUT" \in DOMAIN IOEnv
        THEN ndJsonSerialize(IOEnv.OUT, SetToSeq({[h |-> h] : h \in Histories})) ELSE TRUE
=============================================================================
