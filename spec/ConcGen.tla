------------------------------ MODULE ConcGen ------------------------------
(* Programs for the concurrency drivers, drawn at random by TLC's simulation  *)
(* mode: one program per step.  PROFILE selects the kind.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Schedule

Profile == IOEnv.PROFILE
VARIABLE i
R(S, k) == RandomElement(S)
Str(n) == ToString(n)
\* a draw bound once
Pick(S, k) == CHOOSE x \in {R(S, k)} : TRUE
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Weighted(ps, k) == ps[Pick(DOMAIN ps, k)]

---------------------------------------------------------------- (* queues *)
OwnerOps(n, k) == [j \in 1..n |-> Weighted(<<"P", "P", "P", "O", "O", "P2", "O2", "P3">>, k * 100 + j)]
DequeProg(k) ==
  LET pre == OwnerOps(Pick(0..3, k), k)
      post == OwnerOps(Pick(2..5, k), k + 50)
      nth == Weighted(<<1, 1, 1, 2, 2, 3>>, k)
  IN "deque cap=" \o Str(Weighted(<<2, 2, 4>>, k)) \o " owner=" \o Join(pre \o <<"G">> \o post, ",")
     \o " thieves=" \o Join([j \in 1..nth |-> Str(Pick(1..3, k * 10 + j))], ",")
     \o " ptr=" \o Str(Pick({0, 1}, k)) \o " drain=" \o Str(Weighted(<<0, 0, 1>>, k))
\* few operations, for exhaustive exploration
DequeSmall(k) ==
  LET nth == Weighted(<<1, 1, 2>>, k) IN
  "deque cap=2 owner=" \o Join([j \in 1..Pick(0..2, k) |-> "P"] \o <<"G">> \o [j \in 1..Pick(1..3, k) |-> Weighted(<<"P", "O">>, k + j)], ",")
     \o " thieves=" \o Join([j \in 1..nth |-> Str(Pick(1..2, k * 10 + j))], ",") \o " ptr=" \o Str(Pick({0, 1}, k))

----------------------------------------------------------------- (* tasks *)
T0 == [n |-> 0, par |-> <<>>, by |-> <<>>, ops |-> [x \in {0} |-> <<>>], known |-> [x \in {0} |-> {}]]
RECURSIVE Anc(_, _)
Anc(t, x) == IF x = 0 THEN {} ELSE {x} \cup Anc(t, t.par[x])
Own(t, s) == {x \in 1..t.n : t.by[x] = s}
AddTask(t, s, p) ==
  LET m == t.n + 1 IN
  [n |-> m, par |-> Append(t.par, p), by |-> Append(t.by, s),
   ops |-> [x \in 0..m |-> IF x = m THEN <<>> ELSE IF x = s THEN Append(t.ops[x], Weighted(<<"S", "S", "C">>, m) \o Str(m) \o "." \o Str(p)) ELSE t.ops[x]],
   known |-> [x \in 0..m |-> IF x = m THEN t.known[s] ELSE IF x = s THEN t.known[x] \cup {m} ELSE t.known[x]]]
AddOp(t, s, o) == [t EXCEPT !.ops[s] = Append(@, o)]
RECURSIVE Grow(_, _, _)
Grow(t, n, k) ==
  IF n = 0 THEN t
  ELSE LET s == IF Pick(1..3, k) = 1 THEN 0 ELSE Pick(0..t.n, k)
           ps == Own(t, s) \cup {q \in t.known[s] : q \in Anc(t, s)}
           p == IF Pick(1..4, k) = 1 THEN 0 ELSE Pick(ps \cup {0}, k)
           t1 == AddTask(t, s, p)
           t2 == IF Pick(1..6, k) = 1 THEN AddOp(t1, s, "W" \o Str(Pick(Own(t1, s), k))) ELSE t1
           t3 == IF Pick(1..6, k) = 1 THEN AddOp(t2, Pick(0..t2.n, k), "Y" \o Str(Pick(1..4, k))) ELSE t2
           own == Own(t3, s)
           t4 == IF Pick(1..5, k) = 1 /\ own # {} THEN AddOp(t3, s, "P" \o Str(Pick(own, k))) ELSE t3
       IN CHOOSE r \in {Grow(t4, n - 1, k + 1)} : TRUE
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* everybody waits for what it has submitted without a parent, and then looks at some of it; loose: or does not wait
Body(t, s, loose, k) ==
  LET roots == SeqOf({x \in Own(t, s) : t.par[x] = 0}) IN
  t.ops[s] \o [j \in 1..Len(roots) |-> IF loose /\ Pick(1..2, k) = 1 THEN "Y1" ELSE "W" \o Str(roots[j])]
           \o [j \in 1..(IF Own(t, s) = {} THEN 0 ELSE Pick(0..2, k)) |-> "P" \o Str(Pick(Own(t, s), k + j))]
TasksProg(k) ==
  LET t == CHOOSE r \in {Grow(T0, Pick(2..9, k), k)} : TRUE
      loose == Pick(1..3, k) = 1
  IN "tasks w=" \o Str(Weighted(<<1, 2, 2, 3, 3, 4>>, k)) \o " t=" \o Join([s \in 1..(t.n + 1) |-> Str(s - 1) \o ":" \o Join(Body(t, s - 1, loose, k), ",")], ";")
     \o " pools=" \o Str(Weighted(<<1, 1, 1, 2, 3>>, k))

---------------------------------------------------------- (* parallel_for *)
PforProg(k) ==
  LET kind == Weighted(<<"vec", "vec", "cvec", "list", "fwd", "iota", "sub", "filter", "view", "view", "cview">>, k)
      depth == Weighted(<<0, 0, 0, 1>>, k)
  IN "pfor w=" \o Str(Pick(1..5, k)) \o " kind=" \o kind \o " n=" \o Str(IF depth = 1 THEN Pick(0..6, k) ELSE Pick(0..25, k))
     \o " inner=" \o Str(Pick(0..6, k)) \o " depth=" \o Str(depth) \o " intask=" \o Str(Weighted(<<0, 0, 0, 1, 2, 3>>, k))
     \o " reps=" \o Str(Weighted(<<1, 1, 2, 3>>, k))

--------------------------------------------------------------- (* reserve *)
ResOp(k) ==
  LET o == Weighted(<<"c", "c", "d", "d", "d", "d", "r", "R", "R", "R", "R", "C", "C", "s", "s", "F", "f", "f">>, k) IN
  CASE o \in {"c", "r"} -> o \o Str(Pick(1..3, k))
    [] o = "d" -> o \o Str(Pick(0..9, k))
    [] o \in {"R", "C"} -> o \o Join([j \in 1..Pick(2..3, k) |-> Str(Pick(1..3, k + j))], ".")
    [] o = "f" -> o \o Str(Pick(1..4, k))
    [] OTHER -> o
ResProg(k) ==
  \* some recycled slots first, about as many as will be reserved
  LET free == Pick(0..5, k) IN
  "reserve ops=" \o Join((IF free > 0 THEN <<"c" \o Str(free + Pick(0..2, k))>> \o [j \in 1..free |-> "d" \o Str(Pick(0..5, k + j))] ELSE <<>>)
                         \o [j \in 1..Pick(2..7, k) |-> ResOp(k * 20 + j)] \o <<"s", "c2">>, ",")

-------------------------------------------------------------- (* schedule *)
SysList(n, mainp, k) ==
  [j \in 1..n |-> (IF Pick(1..mainp, k * 7 + j) = 1 THEN "m" ELSE "") \o Str(Pick(Kinds, k * 100 + j))]
\* systems that conflict often: kinds close to a given one
Clash(n, mainp, k) ==
  LET base == Pick(Kinds, k)
      near == {x \in Kinds : Conflict(x, base)} \cup {base} IN
  [j \in 1..n |-> (IF Pick(1..mainp, k * 7 + j) = 1 THEN "m" ELSE "") \o Str(IF Pick(1..2, k + j) = 1 THEN base ELSE Pick(near, k * 50 + j))]
StageOf(k) ==
  LET n == Pick(0..6, k) m == Weighted(<<2, 4, 4, 50>>, k) IN
  IF Pick(1..2, k) = 1 THEN SysList(n, m, k) ELSE Clash(IF n < 2 THEN 2 ELSE n, m, k)
SchedProg(k) ==
  LET ns == Pick(1..4, k) IN
  "sched w=" \o Str(Weighted(<<1, 2, 3, 3, 4>>, k)) \o " init=" \o Join(StageOf(k + 1), ",")
  \o " stages=" \o Join([j \in 1..ns |-> Join(StageOf(k + j + 2), ",")], "/") \o "/ ex=" \o Str(Weighted(<<1, 1, 2, 3>>, k)) \o " runs=" \o Str(Pick(1..2, k))
  \o " build=" \o Weighted(<<"chain", "refs", "mix">>, k) \o " reg2=" \o Str(Weighted(<<0, 0, 1>>, k)) \o " early=" \o Str(Pick({0, 1}, k))
\* every pair of kinds in one stage; the second one, and then the first one, also bound to the main thread
PairProg(k) ==
  LET a == k % Cardinality(Kinds) b == k \div Cardinality(Kinds) IN
  "sched w=3 init= stages=" \o Str(a) \o "," \o Str(b) \o "/" \o Str(a) \o ",m" \o Str(b) \o "/m" \o Str(a) \o "," \o Str(b) \o ",0/ ex=1 runs=1 build=chain"
TripleProg(k) ==
  "sched w=4 init= stages=" \o Join(SysList(3, 100, k), ",") \o "/" \o Join(Clash(3, 3, k), ",") \o "/ ex=1 runs=1 build=chain"

Prog(k) ==
  CASE Profile = "deque" -> DequeProg(k)
    [] Profile = "dequesmall" -> DequeSmall(k)
    [] Profile = "tasks" -> TasksProg(k)
    [] Profile = "pfor" -> PforProg(k)
    [] Profile = "reserve" -> ResProg(k)
    [] Profile = "sched" -> SchedProg(k)
    [] Profile = "pairs" -> PairProg(k)
    [] Profile = "triples" -> TripleProg(k)

GInit == SInit /\ i = 0
GNext == /\ i' = i + 1
         /\ PrintT(<<"L", Prog(i)>>)
         /\ UNCHANGED svars
GSpec == GInit /\ [][GNext]_<<i, svars>>
=============================================================================
