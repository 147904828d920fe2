----------------------------- MODULE OidTreeConc -----------------------------
(* Concurrent calls on one OID tree, as oid/tree.go runs them: a call takes  *)
(* the tree's read or write lock, works on the nodes in several steps, and   *)
(* releases the lock.  The lock is Go's RWMutex: a writer that waits keeps   *)
(* new readers out.  `abs` is the tree of OidTree, changed in one step; the  *)
(* model shows that every call returns what its one step on `abs` returns    *)
(* (C16), that the lock excludes, and that all calls end.                    *)
EXTENDS OidTree, TLC

CONSTANTS Procs,          \* goroutines, 1..n
          Calls,          \* calls per goroutine
          Universe,       \* OIDs (as sequences of small numbers)
          Ops,            \* subset of {"add", "rem", "get", "next", "walk", "clear", "revisit"}
          AddLock, RemLock, ReadLock   \* "W", "R", "none"; RemLock also "RW": searched under R, unlinked under W

VARIABLES pc, op, arg, pos, seen, res,   \* per process: where it is, what it does, how far, what it has seen
          want,                          \* per process: what its one step on abs returned
          todo, wlock, rlock, waiting, abs
vars == <<nodes, data, pc, op, arg, pos, seen, res, want, todo, wlock, rlock, waiting, abs>>

Three == {<<1>>, <<1, 1>>, <<2, 1>>}
Two == {<<1>>, <<1, 1>>}
Us == {O(o) : o \in Universe}
Mode(o) == CASE o = "add" -> AddLock [] o = "rem" -> RemLock [] o = "clear" -> AddLock [] OTHER -> ReadLock
Nothing == [yes |-> FALSE, os |-> {}]
Yes(b) == [yes |-> b, os |-> {}]

Init == /\ TreeInit /\ abs = {}
        /\ pc = [p \in Procs |-> "idle"] /\ op = [p \in Procs |-> "none"] /\ arg = [p \in Procs |-> <<>>]
        /\ pos = [p \in Procs |-> 0] /\ seen = [p \in Procs |-> {}]
        /\ res = [p \in Procs |-> Nothing] /\ want = [p \in Procs |-> Nothing]
        /\ todo = [p \in Procs |-> Calls] /\ wlock = 0 /\ rlock = {} /\ waiting = {}

Set(f, p, v) == [f EXCEPT ![p] = v]
Locks == <<wlock, rlock, waiting>>
Tree == <<nodes, data, abs>>

Call(p) == /\ pc[p] = "idle" /\ todo[p] > 0
           /\ \E o \in Ops, a \in Us :
                 /\ op' = Set(op, p, o) /\ arg' = Set(arg, p, IF o \in {"walk", "clear", "revisit"} THEN <<>> ELSE a)
           /\ pc' = Set(pc, p, IF Mode(op'[p]) = "W" THEN "lock" ELSE IF Mode(op'[p]) \in {"R", "RW"} THEN "rlock" ELSE "first")
           /\ todo' = Set(todo, p, todo[p] - 1) /\ pos' = Set(pos, p, 0) /\ seen' = Set(seen, p, {})
           /\ UNCHANGED <<Tree, Locks, res, want>>

Wait(p) == /\ pc[p] = "lock" /\ waiting = {} /\ wlock = 0     \* RWMutex.w is taken: one waiting writer at a time
           /\ waiting' = {p} /\ pc' = Set(pc, p, "locking")
           /\ UNCHANGED <<Tree, wlock, rlock, op, arg, pos, seen, res, want, todo>>
Lock(p) == /\ pc[p] = "locking" /\ rlock = {}
           /\ wlock' = p /\ waiting' = {}
           /\ pc' = Set(pc, p, IF pos[p] > 0 THEN "work" ELSE "first")
           /\ UNCHANGED <<Tree, rlock, op, arg, pos, seen, res, want, todo>>
RLock(p) == /\ pc[p] = "rlock" /\ wlock = 0 /\ waiting = {}
            /\ rlock' = rlock \cup {p} /\ pc' = Set(pc, p, "first")
            /\ UNCHANGED <<Tree, wlock, waiting, op, arg, pos, seen, res, want, todo>>

\* the one step on abs: writers at the start of their work, readers too
AbsStep(p) ==
    LET o == op[p]  a == arg[p] IN
    CASE o = "add"   -> abs' = Added(abs, a)   /\ want' = Set(want, p, Yes(IsNew(abs, a)))
      [] o = "rem"   -> abs' = Removed(abs, a) /\ want' = Set(want, p, Yes(a \in abs))
      [] o = "clear" -> abs' = {}              /\ want' = Set(want, p, Nothing)
      [] o = "get"   -> abs' = abs             /\ want' = Set(want, p, Yes(a \in abs))
      [] o = "next"  -> abs' = abs /\ want' = Set(want, p, LET r == NextLeaf(abs, a, <<>>, FALSE) IN
                                                           [yes |-> r.found, os |-> IF r.found THEN {r.o} ELSE {}])
      [] OTHER       -> abs' = abs             /\ want' = Set(want, p, [yes |-> FALSE, os |-> Leaves(abs)])

First(p) == /\ pc[p] = "first"
            /\ AbsStep(p)
            /\ pc' = Set(pc, p, "work")
            /\ res' = Set(res, p, IF op[p] = "add" THEN Yes(IsNew(nodes, arg[p]))
                                  ELSE IF op[p] \in {"rem", "get"} THEN Yes(TRUE) ELSE Nothing)
            /\ UNCHANGED <<nodes, data, Locks, op, arg, pos, seen, todo>>

Finish(p) == pc' = Set(pc, p, "unlock")

\* addNode: one missing node at a time, from the top
WorkAdd(p) ==
    LET missing == {m \in Ancestry(arg[p]) : m \notin nodes} IN
    IF missing = {} THEN Finish(p) /\ UNCHANGED <<nodes, pos, seen, res>>
    ELSE nodes' = nodes \cup {Least(missing)} /\ UNCHANGED <<pc, pos, seen, res>>
\* getNode: one level at a time
WorkGet(p) ==
    IF pos[p] = Len(arg[p]) THEN Finish(p) /\ UNCHANGED <<nodes, pos, seen, res>>
    ELSE IF SubSeq(arg[p], 1, pos[p] + 1) \in nodes
         THEN pos' = Set(pos, p, pos[p] + 1) /\ UNCHANGED <<nodes, pc, seen, res>>
         ELSE res' = Set(res, p, Yes(FALSE)) /\ Finish(p) /\ UNCHANGED <<nodes, pos, seen>>
\* removeNode: search as above, then unlink
WorkRem(p) ==
    IF pos[p] < Len(arg[p]) THEN WorkGet(p)
    ELSE nodes' = Removed(nodes, arg[p]) /\ Finish(p) /\ UNCHANGED <<pos, seen, res>>
WorkClear(p) == nodes' = {} /\ Finish(p) /\ UNCHANGED <<pos, seen, res>>
\* iterate: one child of the root at a time
Top == {SubSeq(o, 1, 1) : o \in Us}
WorkScan(p) ==
    IF pos[p] = Cardinality(Top) THEN
        /\ res' = Set(res, p, IF op[p] = "next"
                              THEN LET c == {o \in seen[p] : OidLess(arg[p], o)} IN
                                   [yes |-> c # {}, os |-> IF c = {} THEN {} ELSE {Least(c)}]
                              ELSE [yes |-> FALSE, os |-> seen[p]])
        /\ Finish(p) /\ UNCHANGED <<nodes, pos, seen>>
    ELSE LET t == SortedOids(Top)[pos[p] + 1] IN
         /\ seen' = Set(seen, p, seen[p] \cup {o \in Leaves(nodes) : IsPrefixOf(t, o)})
         /\ pos' = Set(pos, p, pos[p] + 1) /\ UNCHANGED <<nodes, pc, res>>

\* a visitor that calls back into the tree takes the read lock a second time
\* (excepted by C16: it can wait for a writer that waits for it)
Revisit(p) == /\ pc[p] = "work" /\ op[p] = "revisit"
              /\ wlock = 0 /\ waiting = {}
              /\ res' = Set(res, p, want[p]) /\ Finish(p)
              /\ UNCHANGED <<Tree, Locks, op, arg, pos, seen, want, todo>>

Work(p) == /\ pc[p] = "work" /\ op[p] # "revisit"
           /\ CASE op[p] = "add" -> WorkAdd(p) [] op[p] = "get" -> WorkGet(p) [] op[p] = "rem" -> WorkRem(p)
                [] op[p] = "clear" -> WorkClear(p) [] OTHER -> WorkScan(p)
           /\ data' = data /\ UNCHANGED <<Locks, op, arg, want, todo, abs>>

\* RW: the search is done; give the read lock back and wait for the write lock
Upgrade(p) == /\ Mode(op[p]) = "RW" /\ pc[p] = "work" /\ p \in rlock /\ pos[p] = Len(arg[p])
              /\ rlock' = rlock \ {p} /\ pc' = Set(pc, p, "lock")
              /\ UNCHANGED <<Tree, wlock, waiting, op, arg, pos, seen, res, want, todo>>

Unlock(p) == /\ pc[p] = "unlock"
             /\ wlock' = IF wlock = p THEN 0 ELSE wlock
             /\ rlock' = rlock \ {p}
             /\ pc' = Set(pc, p, "return")
             /\ UNCHANGED <<Tree, waiting, op, arg, pos, seen, res, want, todo>>
Return(p) == /\ pc[p] = "return"
             /\ pc' = Set(pc, p, "idle") /\ op' = Set(op, p, "none") /\ arg' = Set(arg, p, <<>>)
             /\ pos' = Set(pos, p, 0) /\ seen' = Set(seen, p, {}) /\ res' = Set(res, p, Nothing) /\ want' = Set(want, p, Nothing)
             /\ UNCHANGED <<Tree, Locks, todo>>

Step(p) == \/ Call(p) \/ Wait(p) \/ Lock(p) \/ RLock(p) \/ First(p) \/ Unlock(p) \/ Return(p) \/ Revisit(p)
           \/ IF Mode(op[p]) = "RW" /\ p \in rlock /\ pc[p] = "work" /\ pos[p] = Len(arg[p]) THEN Upgrade(p) ELSE Work(p)
AllDone == \A p \in Procs : pc[p] = "idle" /\ todo[p] = 0
Next == (\E p \in Procs : Step(p)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

(******************************* properties *********************************)
Exclusion == /\ wlock # 0 => rlock = {}
             /\ \A p \in Procs : pc[p] = "work" /\ op[p] \in {"add", "rem", "clear"} => wlock = p
Atomic == \A p \in Procs : pc[p] = "return" => res[p] = want[p]
SameTree == (\A p \in Procs : pc[p] \notin {"first", "work"}) => nodes = abs
ClosedAlways == PrefixClosed(nodes)
AllReturn == <>AllDone
=============================================================================
