--------------------------- MODULE HandlePoolImpl ---------------------------
(* How handles are made: ids with generations, a stack of free ids with a      *)
(* cursor that reservations of any thread move down (below zero they take new   *)
(* ids), and ids that are retired with their last generation.  Checked to       *)
(* refine HandlePool for all histories of a small pool; every transition of      *)
(* the single-threaded pool is printed to be replayed on the real one.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt
CONSTANTS MaxIds, MaxGen, Threads, Edges
VARIABLES nextId, cursor, free, gens,   \* the pool
          pc,                           \* thread -> in the middle of a reservation?
          given, open, filled,          \* see HandlePool
          op
vars == <<nextId, cursor, free, gens, pc, given, open, filled>>
H(i, g) == <<i, g>>
AliveNow(h) == h[1] < Len(gens) /\ gens[h[1] + 1] = h[2]
HP == INSTANCE HandlePool WITH alive <- {h \in given : AliveNow(h)} \ open
Name(h) == ToString(h[1]) \o "." \o ToString(h[2])
Idle == \A t \in Threads : ~pc[t]

Init == /\ nextId = 0 /\ cursor = 0 /\ free = <<>> /\ gens = <<>>
        /\ pc = [t \in Threads |-> FALSE]
        /\ given = {} /\ open = {} /\ filled = {} /\ op = ""

\* what a synchronisation makes of the vectors
Minus == IF cursor < 0 THEN -cursor ELSE 0
Gens == gens \o [i \in 1..Minus |-> 0]
Free == SubSeq(free, 1, IF cursor < 0 THEN 0 ELSE cursor)

Create ==
  /\ Idle
  /\ LET fresh == Free = <<>>
         id == IF fresh THEN nextId ELSE Free[Len(Free)]
         h == H(id, IF fresh THEN 0 ELSE Gens[id + 1]) IN
     /\ fresh => nextId < MaxIds
     /\ nextId' = IF fresh THEN nextId + 1 ELSE nextId
     /\ free' = IF fresh THEN Free ELSE SubSeq(Free, 1, Len(Free) - 1)
     /\ cursor' = Len(free')
     /\ gens' = IF fresh THEN Append(Gens, 0) ELSE Gens
     /\ given' = given \cup {h} /\ filled' = filled \cup {h}
     /\ op' = "create " \o Name(h)
  /\ UNCHANGED <<pc, open>>

Give(h) == given' = given \cup {h} /\ open' = open \cup {h} /\ op' = "reserve " \o Name(h)
\* the first step of a reservation takes a free id, or finds that there is none
Take(t) ==
  /\ ~pc[t]
  /\ cursor - 1 >= -MaxIds
  /\ cursor' = cursor - 1
  /\ IF cursor > 0 THEN Give(H(free[cursor], gens[free[cursor] + 1])) /\ UNCHANGED pc
     ELSE /\ nextId + Cardinality({u \in Threads : pc[u]}) < MaxIds
          /\ pc' = [pc EXCEPT ![t] = TRUE] /\ op' = "" /\ UNCHANGED <<given, open>>
  /\ UNCHANGED <<nextId, free, gens, filled>>
\* the second takes a new one
Fresh(t) ==
  /\ pc[t] /\ pc' = [pc EXCEPT ![t] = FALSE]
  /\ nextId' = nextId + 1 /\ Give(H(nextId, 0))
  /\ UNCHANGED <<cursor, free, gens, filled>>
\* both at once, by the only thread
Reserve ==
  /\ Threads = {}
  /\ cursor' = cursor - 1
  /\ IF cursor > 0 THEN Give(H(free[cursor], gens[free[cursor] + 1])) /\ UNCHANGED nextId
     ELSE nextId < MaxIds /\ nextId' = nextId + 1 /\ Give(H(nextId, 0))
  /\ UNCHANGED <<free, gens, filled, pc>>

Sync == /\ Idle
        /\ gens' = Gens /\ free' = Free /\ cursor' = Len(Free) /\ open' = {} /\ op' = "sync"
        /\ UNCHANGED <<nextId, pc, given, filled>>

\* of a handle that is alive or was: a dead one is left alone
Recycle(h) ==
  /\ Idle /\ h \notin open
  /\ LET a == h[1] < Len(Gens) /\ Gens[h[1] + 1] = h[2] IN
     /\ gens' = IF a THEN [Gens EXCEPT ![h[1] + 1] = @ + 1] ELSE Gens
     /\ free' = IF a /\ h[2] + 1 < MaxGen THEN Append(Free, h[1]) ELSE Free
     /\ cursor' = Len(free')
     /\ filled' = filled \ {h}
     /\ op' = "recycle " \o Name(h)
  /\ UNCHANGED <<nextId, pc, given, open>>
Fill(h) == h \notin filled /\ h \notin open /\ AliveNow(h) /\ filled' = filled \cup {h} /\ op' = "fill " \o Name(h)
           /\ UNCHANGED <<nextId, cursor, free, gens, pc, given, open>>

Next == \/ Create \/ Reserve \/ Sync
        \/ \E t \in Threads : Take(t) \/ Fresh(t)
        \/ \E h \in given : (h \in filled \/ ~AliveNow(h)) /\ Recycle(h)
        \/ \E h \in given : Fill(h)
Spec == Init /\ [][Next]_<<vars, op>>

\* no handle is given twice, and what is alive is exactly what must be
Refines == HP!HInit /\ [][(\E h \in given' : HP!Create(h) \/ HP!Reserve(h)) \/ HP!Sync \/ \E h \in given : HP!Fill(h) \/ HP!Destroy(h)]_<<given, {h \in given : AliveNow(h)} \ open, open, filled>>
\* the ids in use, the free ones and the retired ones are all the ids
Shape == /\ Idle => (Len(gens) + Minus = nextId /\ cursor <= Len(free))
         /\ \A i, j \in DOMAIN free : i # j => free[i] # free[j]
         /\ \A h \in given : h[2] < MaxGen
         /\ HP!HInv
View == vars
FP(x) == ToString(TLCFP(x)) \o "." \o ToString(TLCFP(<<x, 1>>))
Emit == Edges => PrintT(<<"E", FP(vars), op', FP(vars')>>)
=============================================================================
