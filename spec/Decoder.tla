------------------------------ MODULE Decoder ------------------------------
(* The payload decoder as a machine: it reads the bytes from left to right, *)
(* one item at a time, and keeps what is still to be read on a stack.       *)
(* `alloc` is what it has allocated.  It is the same language as DecPayload *)
(* of Wire, said in another way: MCDecoder shows that both agree (C05),     *)
(* that every step makes progress, so that it ends on every input, and that *)
(* the memory it takes is bounded by the bytes it was given, not by what    *)
(* these claim (C06).                                                       *)
EXTENDS Wire

CONSTANT Eager      \* TRUE: the mistake of allocating what a length claims before looking
VARIABLES bytes, be, pos, todo, out, alloc, verdict
decVars == <<bytes, be, pos, todo, out, alloc, verdict>>

ParamItems(k) ==
    CASE k = "none"    -> <<>>
      [] k = "open"    -> <<"byte", "zero", "zero", "zero", "oid", "str">>
      [] k = "close"   -> <<"byte", "zero", "zero", "zero">>
      [] k = "reg"     -> <<"byte", "byte", "rsub", "zero", "oid", "upper">>
      [] k = "unreg"   -> <<"zero", "byte", "rsub", "zero", "oid", "upper">>
      [] k = "bulk"    -> <<"count", "count">>
      [] k = "addcaps" -> <<"oid", "str">>
      [] k = "remcaps" -> <<"oid">>
      [] k = "resp"    -> <<"word", "half", "half">>
Items(tag, flags) ==
    (IF HasCtx(flags) THEN <<"str">> ELSE <<>>) \o ParamItems(ParamKind(tag))
    \o (IF HasRanges(tag) THEN <<"ranges">> ELSE <<>>) \o (IF HasVarbinds(tag) THEN <<"varbinds">> ELSE <<>>)

DecoderInit(tag, flags, b) ==
    /\ bytes = b /\ be = BE(flags) /\ pos = 1 /\ out = <<>> /\ alloc = 0
    /\ todo = Items(tag, flags) /\ verdict = "run"

Left == Len(bytes) - pos + 1
Fail == verdict' = "bad" /\ UNCHANGED <<bytes, be, pos, todo, out>>
\* n bytes read, x put out, a allocated, the rest of the work is w
Read(n, x, a, w) == /\ pos' = pos + n /\ out' = out \o x /\ alloc' = alloc + a /\ todo' = w
                    /\ UNCHANGED <<bytes, be, verdict>>
Rest == Tail(todo)
Bit(n) == IF n = 0 THEN <<>> ELSE <<1>>

Byte1 == IF Left < 1 THEN Fail /\ alloc' = alloc ELSE Read(1, <<bytes[pos]>>, 0, Rest)
Zero1 == IF Left < 1 THEN Fail /\ alloc' = alloc
         ELSE IF bytes[pos] # 0 THEN Fail /\ alloc' = alloc ELSE Read(1, <<>>, 0, Rest)
\* the range sub-identifier decides whether an upper bound follows
Rsub == IF Left < 1 THEN Fail /\ alloc' = alloc
        ELSE Read(1, <<bytes[pos]>>, 0, IF bytes[pos] = 0 THEN SelectSeq(Rest, LAMBDA x : x # "upper") ELSE Rest)
Word(n) == IF Left < n THEN Fail /\ alloc' = alloc
           ELSE Read(n, <<CASE n = 2 -> De2(be, bytes, pos) [] n = 4 -> De4(be, bytes, pos) [] n = 8 -> De8(be, bytes, pos)>>, 0, Rest)
Count == IF Left < 2 THEN Fail /\ alloc' = alloc
         ELSE IF Negative(De2(be, bytes, pos)) THEN Fail /\ alloc' = alloc ELSE Word(2)
Str == IF Left < 4 THEN Fail /\ alloc' = alloc
       ELSE LET w == De4(be, bytes, pos) IN
            IF Negative(w) THEN Fail /\ alloc' = alloc
            ELSE LET n == Int32(w) IN
                 IF n > Left - 4 \/ n + PadSize(n) > Left - 4
                 THEN Fail /\ alloc' = (IF Eager THEN alloc + n \div 1024 ELSE alloc)
                 ELSE IF \E i \in 1..PadSize(n) : bytes[pos + 3 + n + i] # 0 THEN Fail /\ alloc' = alloc
                 ELSE Read(4 + n + PadSize(n), <<SubSeq(bytes, pos + 4, pos + 3 + n)>>, n, Rest)
OidItem(incl) ==
    IF Left < 4 THEN Fail /\ alloc' = alloc
    ELSE LET n == bytes[pos] IN
         IF bytes[pos + 3] # 0 \/ Left - 4 < 4 * n THEN Fail /\ alloc' = alloc
         ELSE LET o == (IF bytes[pos + 1] = 0 THEN <<>> ELSE Internet(bytes[pos + 1]))
                       \o [i \in 1..n |-> De4(be, bytes, pos + 4 * i)]
              IN Read(4 + 4 * n, <<o>> \o (IF incl THEN <<bytes[pos + 2]>> ELSE <<>>), 4 * Len(o), Rest)
Ip == IF Left < 8 THEN Fail /\ alloc' = alloc
      ELSE IF De4(be, bytes, pos) # W32(4) THEN Fail /\ alloc' = alloc
      ELSE Read(8, <<SubSeq(bytes, pos + 4, pos + 7)>>, 4, Rest)
\* lists go on to the end of the bytes
ItemSize == 64
Ranges == IF Left = 0 THEN Read(0, <<>>, 0, Rest)
          ELSE Read(0, <<>>, ItemSize, <<"start", "oid">> \o todo)
Varbinds == IF Left = 0 THEN Read(0, <<>>, 0, Rest)
            ELSE IF Left < 4 THEN Fail /\ alloc' = alloc
            ELSE LET t == De2(be, bytes, pos) IN
                 IF t[1] # 0 \/ t[2] \notin ValueTags \/ bytes[pos + 2] # 0 \/ bytes[pos + 3] # 0 THEN Fail /\ alloc' = alloc
                 ELSE Read(4, <<t[2]>>, ItemSize,
                           <<"oid">> \o (CASE ValueKind(t[2]) \in {"i32", "u32"} -> <<"word">>
                                           [] ValueKind(t[2]) = "u64" -> <<"long">>
                                           [] ValueKind(t[2]) \in {"str", "opq"} -> <<"str">>
                                           [] ValueKind(t[2]) = "oid" -> <<"oid">>
                                           [] ValueKind(t[2]) = "ip" -> <<"ip">>
                                           [] OTHER -> <<>>) \o todo)
Step == /\ verdict = "run" /\ todo # <<>>
        /\ CASE Head(todo) = "byte" -> Byte1 [] Head(todo) = "zero" -> Zero1 [] Head(todo) = "rsub" -> Rsub
             [] Head(todo) = "half" -> Word(2) [] Head(todo) = "count" -> Count
             [] Head(todo) \in {"word", "upper"} -> Word(4) [] Head(todo) = "long" -> Word(8)
             [] Head(todo) = "str" -> Str [] Head(todo) = "oid" -> OidItem(FALSE) [] Head(todo) = "start" -> OidItem(TRUE)
             [] Head(todo) = "ip" -> Ip [] Head(todo) = "ranges" -> Ranges [] Head(todo) = "varbinds" -> Varbinds
Stop == /\ verdict = "run" /\ todo = <<>>
        /\ verdict' = IF Left = 0 THEN "ok" ELSE "bad"
        /\ UNCHANGED <<bytes, be, pos, todo, out, alloc>>
DecoderNext == Step \/ Stop

(* what the machine puts out, of a payload as Wire denotes it               *)
FlatParams(q) ==
    CASE q.k = "none"    -> <<>>
      [] q.k = "open"    -> <<q.timeout, q.oid, q.descr>>
      [] q.k = "close"   -> <<q.reason>>
      [] q.k = "reg"     -> <<q.timeout, q.prio, q.rsub, q.oid>> \o (IF q.rsub = 0 THEN <<>> ELSE <<q.upper>>)
      [] q.k = "unreg"   -> <<q.prio, q.rsub, q.oid>> \o (IF q.rsub = 0 THEN <<>> ELSE <<q.upper>>)
      [] q.k = "bulk"    -> <<q.nonrep, q.maxrep>>
      [] q.k = "addcaps" -> <<q.oid, q.descr>>
      [] q.k = "remcaps" -> <<q.oid>>
      [] q.k = "resp"    -> <<q.uptime, q.error, q.index>>
Flat(flags, v) ==
    (IF HasCtx(flags) THEN <<v.ctx>> ELSE <<>>) \o FlatParams(v.params)
    \o FoldLeft(LAMBDA a, r : a \o <<r.s, r.i, r.e>>, <<>>, v.ranges)
    \o FoldLeft(LAMBDA a, x : a \o <<x.t, x.o>> \o (IF ValueKind(x.t) = "void" THEN <<>> ELSE <<x.v.b>>), <<>>, v.vbs)
=============================================================================
