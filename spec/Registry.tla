------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The entity registry of co_ecs as its users see it: entities, components,*)
(* values, handles, deferred commands.  One definition, Exec, gives for an *)
(* abstract state and an operation the set of allowed outcomes; the model  *)
(* (RegistryMC), the script generator (RegistryGen) and the trace          *)
(* validator (RegistryTrace) all use it.                                   *)
(*                                                                         *)
(* State  s = [ ents   : registry -> (handle -> (component -> value)),     *)
(*              issued : registry -> handles ever given out,               *)
(*              res    : registry -> reserved, not yet synchronised,       *)
(*              held   : registry -> reserved and synchronised, unfilled,  *)
(*              lim    : registry -> handles whose deferred clone failed,  *)
(*              q      : thread -> pending deferred commands ]             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Regs,      \* registries
          Threads    \* threads that may record deferred commands

\* ---------------------------------------------------------------- component types
\* bytes occupied by one value (the drivers assert that the C++ types have these sizes)
SizeOf(c) ==
  CASE c = "A"  -> 4
    [] c = "B"  -> 16
    [] c = "T"  -> 1
    [] c = "S"  -> 48
    [] c = "M"  -> 16
    [] c = "H"  -> 64
    [] c = "C"  -> 3
    [] c = "Q"  -> 16
    [] c = "L1" -> 1000
    [] c = "L5" -> 5000
    [] c = "L7" -> 7000
    [] c = "L9" -> 8500
    [] c = "W"  -> 256
    [] c = "E"  -> 1
    [] c = "G"  -> 8
    [] c = "Y"  -> 1
    [] OTHER -> 0

Tracked    == {"B", "S", "M", "H", "L5", "W", "E"}      \* types whose live objects are counted
MoveOnly   == {"M"}                           \* no copy constructor
MayThrow   == {"B", "H"}                      \* constructors throw on the values below
ThrowCtor  == -1                              \* B(-1) throws
ThrowCopy  == -2                              \* copying B(-2) throws
ChunkBytes == 16384

RECURSIVE SumSizes(_)
SumSizes(cs) == IF cs = {} THEN 8 ELSE LET c == CHOOSE x \in cs : TRUE IN SizeOf(c) + SumSizes(cs \ {c})

\* An entity that does not fit one 16 KB block is refused.  The drivers only use component
\* sets that are off the boundary by more than any alignment padding.
TooBig(cs) == SumSizes(cs) > ChunkBytes

\* ---------------------------------------------------------------- states
Empty == [x \in {} |-> 0]

Init0 == [ ents   |-> [r \in Regs |-> Empty],
           issued |-> [r \in Regs |-> {}],
           res    |-> [r \in Regs |-> {}],
           held   |-> [r \in Regs |-> {}],
           lim    |-> [r \in Regs |-> {}],
           q      |-> [t \in Threads |-> <<>>] ]

Live(s, r)     == DOMAIN s.ents[r]
CompsOf(s,r,h) == DOMAIN s.ents[r][h]
Unfilled(s, r) == s.res[r] \cup s.held[r] \cup s.lim[r]
Dead(s, r, h)  == h \notin Live(s, r) /\ h \notin Unfilled(s, r)

Put(f, k, v)   == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)     == [x \in DOMAIN f \ {k} |-> f[x]]

Fresh(s, r, h) == h \notin s.issued[r]

Add(s, r, h, comps) == [s EXCEPT !.ents[r] = Put(@, h, comps), !.issued[r] = @ \cup {h}]
Fill(s, r, h, comps) == [s EXCEPT !.ents[r] = Put(@, h, comps), !.res[r] = @ \ {h}, !.held[r] = @ \ {h}]
Upd(s, r, h, comps) == [s EXCEPT !.ents[r][h] = comps]
Del(s, r, h)        == [s EXCEPT !.ents[r] = Drop(@, h)]

Ok(s)      == {[s |-> s, res |-> "ok", ret |-> ""]}
OkR(s, v)  == {[s |-> s, res |-> "ok", ret |-> v]}
Err(s, e)  == {[s |-> s, res |-> e, ret |-> ""]}

NotFound == "entity_not_found"
NoComp   == "component_not_found"
TooLarge == "insufficient_chunk_size"
NoCopy   == "invalid_argument"
Boom     == "boom"                      \* the exception thrown by the test components
Errors   == {NotFound, NoComp, TooLarge, NoCopy, Boom, "out_of_range"}

\* what an access through a reserved handle without content does is left open (an error of some kind)
Unspecified(s) == {[s |-> s, res |-> e, ret |-> ""] : e \in Errors}

\* runs F on the components of entity h, or fails as an access through a dead handle must
WithEnt(s, r, h, F(_)) ==
  IF h \in Live(s, r) THEN F(s.ents[r][h])
  ELSE IF h \in Unfilled(s, r) THEN Unspecified(s)
  ELSE Err(s, NotFound)

\* ---------------------------------------------------------------- structural operations
DoCreate(s, r, comps, h) ==
  IF TooBig(DOMAIN comps) THEN Err(s, TooLarge)
  ELSE IF Fresh(s, r, h) THEN OkR(Add(s, r, h, comps), h) ELSE {}

\* many entities at once: the i-th one (handle ns[i]) has each component's value increased by i - 1
Unit == {"T", "E"}                            \* types without a value
Shift(c, v) == IF c \in Unit THEN 0 ELSE v
DoBulk(s, r, comps, ns) ==
  LET N == {ns[i] : i \in DOMAIN ns}
      at == [n \in N |-> CHOOSE i \in DOMAIN ns : ns[i] = n] IN
  IF Cardinality(N) # Len(ns) \/ N \cap s.issued[r] # {} THEN {}
  ELSE Ok([s EXCEPT !.ents[r] = [h \in DOMAIN @ \cup N |->
              IF h \in N THEN [c \in DOMAIN comps |-> Shift(c, comps[c] + at[h] - 1)] ELSE @[h]],
            !.issued[r] = @ \cup N])

DoBulkDestroy(s, r, hs) ==
  LET H == {hs[i] : i \in DOMAIN hs} IN
  IF H \subseteq Live(s, r) /\ Cardinality(H) = Len(hs)
  THEN Ok([s EXCEPT !.ents[r] = [h \in DOMAIN @ \ H |-> @[h]]]) ELSE {}

\* an entity without components is created and destroyed count times, the last one (h) stays
DoChurn(s, r, h, count, fresh, revived) ==
  IF Fresh(s, r, h) /\ fresh = count /\ revived = 0 THEN Ok(Add(s, r, h, Empty)) ELSE {}

\* n entities are created in a registry of their own, those with a number x modulo m are destroyed, n2 more are created;
\* every observation (iterations, look-ups, the size) finds the same entities, once each, with their values
DoCrowd(s, n, m, x, n2, seen) ==
  LET e == n - (IF x < n THEN (n - 1 - x) \div m + 1 ELSE 0) + n2 IN
  IF Len(seen) = 8 /\ \A i \in DOMAIN seen : seen[i] = <<e, e, 0>> THEN Ok(s) ELSE {}

DoDestroy(s, r, h) == WithEnt(s, r, h, LAMBDA e : Ok(Del(s, r, h)))

Throws(c, v) == c \in MayThrow /\ v = ThrowCtor

\* why storing value v as component c of an entity with components e must fail
SetErrors(e, c, v) ==
  (IF Throws(c, v) THEN {Boom} ELSE {})
  \cup (IF c \notin DOMAIN e /\ TooBig(DOMAIN e \cup {c}) THEN {TooLarge} ELSE {})

\* set: add or overwrite; the value is constructed before anything else happens
DoSet(s, r, h, c, v) ==
  WithEnt(s, r, h, LAMBDA e :
    LET errs == SetErrors(e, c, v) IN
    IF errs # {} THEN UNION {Err(s, x) : x \in errs} ELSE Ok(Upd(s, r, h, Put(e, c, v))))

\* set whose argument refers to component src of the same entity
DoSetFrom(s, r, h, c, src) ==
  WithEnt(s, r, h, LAMBDA e :
    IF src \notin DOMAIN e THEN Err(s, NoComp)
    ELSE LET errs == SetErrors(e, c, e[src]) IN
    IF errs # {} THEN UNION {Err(s, x) : x \in errs} ELSE Ok(Upd(s, r, h, Put(e, c, e[src]))))

\* get_or_insert returns the existing value, or inserts
DoGoi(s, r, h, c, v) ==
  WithEnt(s, r, h, LAMBDA e :
    IF c \in DOMAIN e THEN OkR(s, e[c])
    ELSE LET errs == SetErrors(e, c, v) IN
    IF errs # {} THEN UNION {Err(s, x) : x \in errs} ELSE OkR(Upd(s, r, h, Put(e, c, v)), v))

DoRemove(s, r, h, c) == WithEnt(s, r, h, LAMBDA e : Ok(Upd(s, r, h, Drop(e, c))))

\* assignment through the reference returned by get
DoWrite(s, r, h, c, v) ==
  WithEnt(s, r, h, LAMBDA e :
    IF c \notin DOMAIN e THEN Err(s, NoComp) ELSE Ok(Upd(s, r, h, Put(e, c, v))))

\* get of several components (cs is a sequence of component names)
DoGet(s, r, h, cs) ==
  WithEnt(s, r, h, LAMBDA e :
    IF \E i \in DOMAIN cs : cs[i] \notin DOMAIN e THEN Err(s, NoComp)
    ELSE OkR(s, [i \in DOMAIN cs |-> e[cs[i]]]))

DoHas(s, r, h, cs) ==
  WithEnt(s, r, h, LAMBDA e : OkR(s, \A i \in DOMAIN cs : cs[i] \in DOMAIN e))

\* the errors copying an entity may raise ({} if it must succeed)
CopyErrors(e) ==
  (IF \E c \in DOMAIN e : c \in MoveOnly THEN {NoCopy} ELSE {})
  \cup (IF \E c \in DOMAIN e : c \in MayThrow /\ e[c] = ThrowCopy THEN {Boom} ELSE {})

\* copy into registry r2 (clone when r2 = r)
DoCopy(s, r, h, r2, n) ==
  WithEnt(s, r, h, LAMBDA e :
    IF CopyErrors(e) # {} THEN UNION {Err(s, x) : x \in CopyErrors(e)}
    ELSE IF Fresh(s, r2, n) THEN OkR(Add(s, r2, n, e), n) ELSE {})

DoMove(s, r, h, r2, n) ==
  WithEnt(s, r, h, LAMBDA e :
    IF Fresh(s, r2, n) THEN OkR(Add(Del(s, r, h), r2, n, e), n) ELSE {})

DoReserve(s, r, h) ==
  IF Fresh(s, r, h) THEN OkR([s EXCEPT !.issued[r] = @ \cup {h}, !.res[r] = @ \cup {h}], h) ELSE {}

DoSync(s, r) == Ok([s EXCEPT !.held[r] = @ \cup s.res[r], !.res[r] = {}])
SyncOf(s, r) == [s EXCEPT !.held[r] = @ \cup s.res[r], !.res[r] = {}]

\* the same into a handle reserved in r2 (and a synchronisation of r2 right before or after)
DoCopyTo(s, r, h, r2, p) ==
  LET s1 == SyncOf(s, r2) IN
  IF p \notin s1.held[r2] THEN {}
  ELSE WithEnt(s1, r, h, LAMBDA e :
    IF CopyErrors(e) # {} THEN UNION {Err([s1 EXCEPT !.held[r2] = @ \ {p}, !.lim[r2] = @ \cup {p}], x) : x \in CopyErrors(e)}
    ELSE OkR(Fill(s1, r2, p, e), p))

DoMoveTo(s, r, h, r2, p) ==
  LET s1 == SyncOf(s, r2) IN
  IF p \notin s1.held[r2] THEN {}
  ELSE WithEnt(s1, r, h, LAMBDA e : OkR(Fill(Del(s1, r, h), r2, p, e), p))

\* destroying a registry and starting with a new one in its place
DoReset(s, r) ==
  Ok([s EXCEPT !.ents[r] = Empty, !.issued[r] = {}, !.res[r] = {}, !.held[r] = {}, !.lim[r] = {}])

\* ---------------------------------------------------------------- views
\* the entities a query (sequence of component names) must yield
Matching(s, r, cs) == {h \in Live(s, r) : \A i \in DOMAIN cs : cs[i] \in CompsOf(s, r, h)}

\* rows: sequence of <<handle, <<values in query order>> >>
RowOf(s, r, h, cs) == <<h, [i \in DOMAIN cs |-> s.ents[r][h][cs[i]]]>>

\* rows yielded by an iteration; without handles (wh = FALSE) rows carry "" as handle
\* and are compared as a multiset of values
Yields(s, r, cs, wh, rows) ==
  LET m == Matching(s, r, cs)
      row(h) == RowOf(s, r, h, cs) IN
  /\ Len(rows) = Cardinality(m)
  /\ IF wh THEN {rows[i] : i \in DOMAIN rows} = {row(h) : h \in m}
     ELSE /\ \A i \in DOMAIN rows : rows[i][1] = ""
          /\ \A x \in {rows[i][2] : i \in DOMAIN rows} \cup {row(h)[2] : h \in m} :
               Cardinality({i \in DOMAIN rows : rows[i][2] = x}) = Cardinality({h \in m : row(h)[2] = x})

DoView(s, r, cs, wh, rows) == IF Yields(s, r, cs, wh, rows) THEN Ok(s) ELSE {}

\* iteration that adds d to every component named in ws (a subset of the query)
DoViewAdd(s, r, cs, wh, ws, d, rows) ==
  LET m == Matching(s, r, cs)
      w == {ws[i] : i \in DOMAIN ws} IN
  IF Yields(s, r, cs, wh, rows)
  THEN Ok([s EXCEPT !.ents[r] = [h \in DOMAIN @ |->
             IF h \in m THEN [c \in DOMAIN @[h] |-> IF c \in w THEN @[h][c] + d ELSE @[h][c]] ELSE @[h]]])
  ELSE {}

\* iteration that is left at the k-th entity, after that one was updated: by an exception of the callback (thr),
\* which reaches the caller, or by leaving the loop
DoViewStop(s, r, cs, ws, d, rows, k, thr) ==
  LET m == Matching(s, r, cs)
      w == {ws[i] : i \in DOMAIN ws}
      n == Cardinality(m)
      H == {rows[i][1] : i \in DOMAIN rows} IN
  IF /\ Len(rows) = (IF n < k THEN n ELSE k) /\ Cardinality(H) = Len(rows) /\ H \subseteq m
     /\ \A i \in DOMAIN rows : rows[i] = RowOf(s, r, rows[i][1], cs)
  THEN LET s2 == [s EXCEPT !.ents[r] = [h \in DOMAIN @ |->
                   IF h \in H THEN [c \in DOMAIN @[h] |-> IF c \in w THEN @[h][c] + d ELSE @[h][c]] ELSE @[h]]] IN
       IF thr /\ n >= k THEN Err(s2, Boom) ELSE Ok(s2)
  ELSE {}

\* visit of an entity's components: seen is the sequence of <<component, value>> shown, each is increased by d, and
\* the visitor throws at the k-th one
DoVisit(s, r, h, seen, d, k) ==
  WithEnt(s, r, h, LAMBDA e :
    LET n == Cardinality(DOMAIN e)
        C == {seen[i][1] : i \in DOMAIN seen} IN
    IF /\ Len(seen) = (IF n < k THEN n ELSE k) /\ Cardinality(C) = Len(seen) /\ C \subseteq DOMAIN e
       /\ \A i \in DOMAIN seen : seen[i][2] = e[seen[i][1]]
    THEN LET s2 == Upd(s, r, h, [c \in DOMAIN e |-> IF c \in C THEN Shift(c, e[c] + d) ELSE e[c]]) IN
         IF n >= k THEN Err(s2, Boom) ELSE Ok(s2)
    ELSE {})

\* single(): some matching row, nothing iff there is none
DoSingle(s, r, cs, wh, rows) ==
  LET m == Matching(s, r, cs) IN
  IF \/ m = {} /\ rows = <<>>
     \/ Len(rows) = 1 /\ \E h \in m : rows[1] = IF wh THEN RowOf(s, r, h, cs) ELSE <<"", RowOf(s, r, h, cs)[2]>>
  THEN Ok(s) ELSE {}

\* ---------------------------------------------------------------- deferred commands
Enq(s, t, cmd) == [s EXCEPT !.q[t] = Append(@, cmd)]

DoCCreate(s, t, r, comps, h) ==
  IF TooBig(DOMAIN comps) THEN Err(s, TooLarge)
  ELSE IF Fresh(s, r, h)
       THEN OkR(Enq([s EXCEPT !.issued[r] = @ \cup {h}, !.res[r] = @ \cup {h}], t,
                    [k |-> "create", h |-> h, comps |-> comps]), h)
       ELSE {}
DoCClone(s, t, r, src, h) ==
  IF Fresh(s, r, h)
  THEN OkR(Enq([s EXCEPT !.issued[r] = @ \cup {h}, !.res[r] = @ \cup {h}], t, [k |-> "clone", src |-> src, h |-> h]), h)
  ELSE {}
DoCSet(s, t, h, c, v) ==
  IF Throws(c, v) THEN Err(s, Boom) ELSE Ok(Enq(s, t, [k |-> "set", h |-> h, c |-> c, v |-> v]))
DoCRemove(s, t, h, c) == Ok(Enq(s, t, [k |-> "remove", h |-> h, c |-> c]))
DoCDestroy(s, t, h)   == Ok(Enq(s, t, [k |-> "destroy", h |-> h]))

Limbo(s, r, h) == [s EXCEPT !.held[r] = @ \ {h}, !.lim[r] = @ \cup {h}]

ExecCmd(s, r, cmd) ==
  CASE cmd.k = "create"  -> Ok(Fill(s, r, cmd.h, cmd.comps))
    [] cmd.k = "clone"   ->
         LET lim == Limbo(s, r, cmd.h) IN
         IF cmd.src \in Live(s, r)
         THEN LET e == s.ents[r][cmd.src] IN
              IF CopyErrors(e) # {} THEN UNION {Err(lim, x) : x \in CopyErrors(e)} ELSE Ok(Fill(s, r, cmd.h, e))
         ELSE IF cmd.src \in Unfilled(s, r) THEN Unspecified(lim) ELSE Err(lim, NotFound)
    [] cmd.k = "set"     -> DoSet(s, r, cmd.h, cmd.c, cmd.v)
    [] cmd.k = "remove"  -> DoRemove(s, r, cmd.h, cmd.c)
    [] cmd.k = "destroy" -> DoDestroy(s, r, cmd.h)

\* states after the first n commands of queue q all succeeded
RECURSIVE PlayOk(_, _, _, _)
PlayOk(s, r, q, n) ==
  IF n = 0 THEN {s}
  ELSE UNION {{o.s : o \in {x \in ExecCmd(p, r, q[n]) : x.res = "ok"}} : p \in PlayOk(s, r, q, n - 1)}

\* outcomes in which n - 1 commands succeeded and the n-th failed
PlayFail(s, r, q, n) ==
  UNION {{x \in ExecCmd(p, r, q[n]) : x.res # "ok"} : p \in PlayOk(s, r, q, n - 1)}

\* states after each thread t of ts has played its first n[t] commands (threads do not interfere:
\* scripts give every thread its own entities)
RECURSIVE PlayThreads(_, _, _, _)
PlayThreads(s, r, ts, n) ==
  IF ts = {} THEN {s}
  ELSE LET t == CHOOSE x \in ts : TRUE IN
       UNION {PlayThreads([p EXCEPT !.q[t] = SubSeq(@, n[t] + 1, Len(@))], r, ts \ {t}, n)
                : p \in PlayOk(s, r, s.q[t], n[t])}

Busy(s) == {t \in Threads : s.q[t] # <<>>}

FlushOk(s, r) ==
  {[s |-> x, res |-> "ok", ret |-> ""] : x \in PlayThreads(SyncOf(s, r), r, Busy(s), [t \in Threads |-> Len(s.q[t])])}

\* states after each thread of ts has played any prefix of its commands
RECURSIVE PlayPrefixes(_, _, _)
PlayPrefixes(s, r, ts) ==
  IF ts = {} THEN {s}
  ELSE LET t == CHOOSE x \in ts : TRUE IN
       UNION {UNION {PlayPrefixes([p EXCEPT !.q[t] = SubSeq(@, n + 1, Len(@))], r, ts \ {t})
                       : p \in PlayOk(s, r, s.q[t], n)} : n \in 0..Len(s.q[t])}

\* thread f fails at its n-th command; every other thread has played any prefix
FlushFail(s, r) ==
  UNION {UNION {UNION {
    {[o EXCEPT !.s.q[f] = SubSeq(s.q[f], n + 1, Len(s.q[f]))] : o \in PlayFail(x, r, s.q[f], n)}
      : x \in PlayPrefixes(SyncOf(s, r), r, Busy(s) \ {f})} : n \in 1..Len(s.q[f])} : f \in Busy(s)}

DoFlush(s, r, ok) == IF ok THEN FlushOk(s, r) ELSE FlushFail(s, r)

\* ---------------------------------------------------------------- one operation
\* o is a record (an event of a trace, or a generated operation)
Exec(s, o) ==
  CASE o.op = "create"   -> DoCreate(s, o.r, o.comps, o.n)
    [] o.op = "bulk"     -> DoBulk(s, o.r, o.comps, o.ns)
    [] o.op = "bulkkill" -> DoBulkDestroy(s, o.r, o.hs)
    [] o.op = "churn"    -> DoChurn(s, o.r, o.n, o.count, o.fresh, o.revived)
    [] o.op = "crowd"    -> DoCrowd(s, o.n, o.m, o.x, o.n2, o.seen)
    [] o.op = "destroy"  -> DoDestroy(s, o.r, o.h)
    [] o.op = "set"      -> DoSet(s, o.r, o.h, o.c, o.v)
    [] o.op = "setfrom"  -> DoSetFrom(s, o.r, o.h, o.c, o.src)
    [] o.op = "goi"      -> DoGoi(s, o.r, o.h, o.c, o.v)
    [] o.op = "remove"   -> DoRemove(s, o.r, o.h, o.c)
    [] o.op = "write"    -> DoWrite(s, o.r, o.h, o.c, o.v)
    [] o.op = "get"      -> DoGet(s, o.r, o.h, o.cs)
    [] o.op = "has"      -> DoHas(s, o.r, o.h, o.cs)
    [] o.op = "clone"    -> DoCopy(s, o.r, o.h, o.r, o.n)
    [] o.op = "copy"     -> DoCopy(s, o.r, o.h, o.r2, o.n)
    [] o.op = "move"     -> DoMove(s, o.r, o.h, o.r2, o.n)
    [] o.op = "reserve"  -> DoReserve(s, o.r, o.n)
    [] o.op = "sync"     -> DoSync(s, o.r)
    [] o.op = "copyto"   -> DoCopyTo(s, o.r, o.h, o.r2, o.p)
    [] o.op = "moveto"   -> DoMoveTo(s, o.r, o.h, o.r2, o.p)
    [] o.op = "newreg"   -> DoReset(s, o.r)
    [] o.op = "view"     -> DoView(s, o.r, o.cs, o.wh, o.rows)
    [] o.op = "viewadd"  -> DoViewAdd(s, o.r, o.cs, o.wh, o.ws, o.v, o.rows)
    [] o.op = "viewstop" -> DoViewStop(s, o.r, o.cs, o.ws, o.v, o.rows, o.k, o.thr)
    [] o.op = "visit"    -> DoVisit(s, o.r, o.h, o.seen, o.v, o.k)
    [] o.op = "single"   -> DoSingle(s, o.r, o.cs, o.wh, o.rows)
    [] o.op = "ccreate"  -> DoCCreate(s, o.t, o.r, o.comps, o.n)
    [] o.op = "cclone"   -> DoCClone(s, o.t, o.r, o.h, o.n)
    [] o.op = "cset"     -> DoCSet(s, o.t, o.h, o.c, o.v)
    [] o.op = "cremove"  -> DoCRemove(s, o.t, o.h, o.c)
    [] o.op = "cdestroy" -> DoCDestroy(s, o.t, o.h)
    [] o.op = "flush"    -> DoFlush(s, o.r, o.res = "ok")
    [] o.op = "endthread"-> Ok(s)
    [] OTHER -> {}

\* ---------------------------------------------------------------- observable projection
\* live objects of component type c: stored ones and those held by pending commands
PendingObjs(s, c) ==
  Cardinality(UNION {{<<t, i>> : i \in {j \in DOMAIN s.q[t] :
     \/ s.q[t][j].k = "create" /\ c \in DOMAIN s.q[t][j].comps
     \/ s.q[t][j].k = "set" /\ s.q[t][j].c = c}} : t \in Threads})
StoredObjs(s, c) ==
  Cardinality(UNION {{<<r, h>> : h \in {x \in Live(s, r) : c \in CompsOf(s, r, x)}} : r \in Regs})
LiveObjs(s, c) == StoredObjs(s, c) + PendingObjs(s, c)

\* handles whose liveness is determined
MustBeAlive(s, r) == Live(s, r) \cup s.held[r]
MayBeAlive(s, r)  == Live(s, r) \cup Unfilled(s, r)

\* ---------------------------------------------------------------- invariants of the abstract state
Inv(s) ==
  \A r \in Regs :
    /\ Live(s, r) \subseteq s.issued[r]
    /\ Unfilled(s, r) \subseteq s.issued[r]
    /\ Live(s, r) \cap Unfilled(s, r) = {}
    /\ s.res[r] \cap s.held[r] = {}
    /\ \A h \in Live(s, r) : ~TooBig(CompsOf(s, r, h))
=============================================================================
