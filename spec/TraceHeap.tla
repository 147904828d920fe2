------------------------------ MODULE TraceHeap ------------------------------
(* Judges histories of codec calls and caller writes over a pool of PDUs    *)
(* and buffers (C09).  store holds a digest of every object.  A codec call  *)
(* changes nothing but its target, and gives what a process gives that has  *)
(* made no other call (fresh).  A caller's copy of a PDU shares its lists:  *)
(* what the caller writes to one of a family it may see in the others.      *)
(* No two parts of one object share memory either: a write changes what it  *)
(* does to a copy that shares nothing (want).                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ses, at, store, family
vars == <<ses, at, store, family>>
Ev == Sessions[ses].ev[at]

\* all objects but those of X are as before; new ones may have been added
Frame(all, X, new) ==
    /\ Len(all) = Len(store) + new
    /\ \A i \in 1..Len(store) : i \in X \/ all[i] = store[i]
Kin(i) == {j \in 1..Len(family) : family[j] = family[i]}
Written(e) == IF "want" \in DOMAIN e THEN e.all[e.dst] = e.want ELSE TRUE
Pure(e) == e.got = e.fresh

Op(e) ==
    CASE e.e = "mk"  -> Frame(e.all, {}, 1)                      \* the caller makes an object
      [] e.e = "cp"  -> Frame(e.all, {}, 1) /\ e.all[Len(e.all)] = store[e.src]   \* copies a PDU value
      [] e.e = "wr"  -> Frame(e.all, Kin(e.dst), 0) /\ Written(e)  \* the caller writes to one
      [] e.e = "enc" -> Pure(e) /\ Frame(e.all, {}, IF e.got.ok THEN 1 ELSE 0)
      [] e.e = "hdr" -> Pure(e) /\ Frame(e.all, {}, IF e.got.ok THEN 1 ELSE 0)
      [] e.e = "pay" -> Pure(e) /\ Frame(e.all, {e.dst}, 0)
      [] e.e = "conc" -> \A i \in 1..Len(e.got) : e.got[i] = e.want
      [] OTHER -> FALSE

Init == ses \in 1..Len(Sessions) /\ at = 1 /\ store = <<>> /\ family = <<>>
Next == /\ at <= Len(Sessions[ses].ev)
        /\ ses' = ses
        /\ IF Op(Ev) THEN /\ at' = at + 1
                          /\ store' = IF Ev.e = "conc" THEN store ELSE Ev.all
                          /\ family' = IF Len(store') = Len(store) THEN family
                                       ELSE Append(family, IF Ev.e = "cp" THEN family[Ev.src] ELSE Len(store'))
           ELSE PrintT(<<"REJECT", ses, at>>) /\ store' = store /\ family' = family /\ at' = 1000000
Spec == Init /\ [][Next]_vars
=============================================================================
