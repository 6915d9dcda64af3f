----------------------------- MODULE RegistryGen -----------------------------
(* Random behaviours of Registry.tla, printed as scripts for the real code.   *)
(* Run with tlc -simulate; handles of the model are the names of the script.  *)
EXTENDS Registry, SequencesExt, IOUtils

Profile == IOEnv.PROFILE
Focus   == IOEnv.FOCUS        \* profile "chunks": the big component type of all entities
MaxEnts == atoi(IOEnv.MAXENTS)
Steps   == atoi(IOEnv.STEPS)

VARIABLES S, i, k, burst
vars == <<S, i, k, burst>>

Rnd(X) == RandomElement(X)
Chance(p, x) == RandomElement(1..100) <= p       \* x only keeps TLC from treating this as a constant

\* ---- tables also known to the driver (world_c.cpp, world_q.cpp)
Combos ==
 {<<>>, <<"A">>, <<"B">>, <<"T">>, <<"S">>, <<"M">>, <<"H">>, <<"C">>, <<"Q">>, <<"A","B">>, <<"B","A">>, <<"T","A">>,
  <<"A","T">>, <<"T","B">>, <<"A","B","S">>, <<"S","B","A">>, <<"B","H">>, <<"H","B">>, <<"A","C","Q">>, <<"Q","C","A">>,
  <<"M","S">>, <<"A","M">>, <<"M","A","B">>, <<"S","H">>, <<"H","Q","C">>, <<"C","H","Q">>, <<"A","S","M","H">>,
  <<"T","S","H">>, <<"B","S">>, <<"A","B","S","H">>, <<"B","S","Q","H","A">>, <<"H","S","B","A">>,
  <<"W">>, <<"A","W">>, <<"W","B">>, <<"E">>, <<"E","S">>, <<"G">>, <<"G","A">>, <<"H","W","E","G">>, <<"C","W">>, <<"Y">>, <<"A","Y">>, <<"Y","C","S">>, <<"B","Y","T">>}
BigCombos ==
 {<<"L1">>, <<"L5">>, <<"L7">>, <<"L9">>, <<"L1","A">>, <<"A","L1">>, <<"L5","A">>, <<"L5","B">>, <<"L5","L7">>, <<"L7","L5">>,
  <<"L9","A">>, <<"L9","L7">>}
HugeCombos == {<<"L5","L7","L9">>, <<"B","L9","L7","L1">>}
Queries ==
 {<<"A">>, <<"B">>, <<"T">>, <<"S">>, <<"M">>, <<"H">>, <<"L5">>, <<"A","B">>, <<"B","A">>, <<"S","A">>, <<"T","A">>,
  <<"H","B">>, <<"L1","A">>, <<"A","B","S">>, <<"C">>, <<"Q">>, <<"M","A">>, <<"Q","C">>, <<"L1">>, <<"A","S","M","H">>, <<"S","B","A","H">>, <<"Q","A","H","S","B">>, <<"L5","L7">>, <<"W">>, <<"E">>, <<"G","A">>, <<"Y">>, <<"A","Y">>}
Small == {"A", "B", "T", "S", "M", "H", "C", "Q", "W", "E", "G", "Y"}
Big   == {"L1", "L5", "L7", "L9"}

\* ---- profiles: operation names with their weights
Basic == <<"create","create","create","create","destroy","destroy","set","set","set","goi","remove","remove","write","setfrom">>
Weights ==
  CASE Profile = "handles" -> <<"create","create","create","destroy","destroy","destroy","reserve","reserve","sync","fillcopy","stale","stale","clone","copy","move","ccreate","flush","set","newreg","churn">>
    [] Profile = "chunks"  -> <<"create","create","create","create","create","create","create","destroy","destroy","destroy","destroy","destroy","destroy","set","set","remove","clone","move","copy","write","newreg">>
    [] Profile = "data"    -> Basic \o <<"visit","burst","burstkill","set","remove","get","get","has","clone","move","write","destroy">>
    [] Profile = "life"    -> Basic \o <<"visit","viewstop","burst","burstkill","clone","copy","move","ccreate","cset","cset","cclone","cdestroy","flush","newreg","viewadd">>
    [] Profile = "views"   -> <<"create","create","destroy","set","remove","burst","burstkill","view","view","view","view","view","viewadd","viewadd","viewstop","viewstop","single","single","move","clone">>
    [] Profile = "copies"  -> Basic \o <<"clone","clone","clone","copy","copy","copy","move","move","move","reserve","fillcopy","fillcopy","fillmove","fillmove","write","write","burst","newreg","viewadd">>
    [] Profile = "faults"  -> Basic \o <<"hugecreate","bigset","bigset","bigset","badset","badset","badgoi","badsetfrom","noncopy","noncopy","noncopy","badcopy","badcopy","stale","stale","missing","missing","view","viewstop","visit","single","clone","burst","newreg">>
    [] Profile = "cmds"    -> <<"create","create","ccreate","ccreate","ccreate","cset","cset","cset","cset","cclone","cclone","cremove","cremove","cdestroy","flush","flush","set","destroy","get","view","reserve","move","write">>
    [] Profile = "cmdfail" -> <<"create","create","ccreate","ccreate","cset","cset","cset","cstale","cstale","cbadset","cbadclone","cbig","cclone","cremove","cdestroy","flush","flush","endthread","endthread","view","destroy","destroy">>
    [] Profile = "bulk"    -> <<"bulk","bulk","bulk","bulkkill","bulkkill","bulkkill","bulkkill","create","destroy","set","remove","view","viewadd","clone","move","write","newreg","crowd">>
    [] OTHER -> Basic

\* the same profile restricted to a random third of the component types keeps archetypes populated
Favour == <<"A","B","S">>

New  == "e" \o ToString(k)
Val(c) == IF c \in Unit THEN 0 ELSE 100 + i
PickReg(x) == Rnd(IF Chance(75, x) THEN {1} ELSE Regs)
Handles(s) == UNION {{<<r, h>> : h \in Live(s, r)} : r \in Regs}
Null(r)    == "null" \o ToString(r - 1)       \* names an entity that never was
Ghosts(s)  == {<<r, Null(r)>> : r \in Regs} \cup UNION {{<<r, h>> : h \in s.issued[r] \ (Live(s, r) \cup Unfilled(s, r))} : r \in Regs}
PickCombo(x) == IF Profile = "chunks" THEN Rnd({<<Focus>>, IF Focus = "L7" THEN <<Focus>> ELSE <<Focus, "A">>})
                ELSE IF Chance(12, x) THEN Rnd(BigCombos) ELSE IF Chance(40, x) THEN Rnd({<<"A">>, <<"A","B">>, <<"A","B","S">>, <<"B">>}) ELSE Rnd(Combos)
PickComp(x)  == IF Profile = "chunks" THEN Rnd({"A", Focus}) ELSE IF Chance(8, x) THEN Rnd(Big) ELSE IF Chance(40, x) THEN Rnd({"A","B","S"}) ELSE Rnd(Small)
Join(q, f(_)) == FoldLeft(LAMBDA acc, y : IF acc = "" THEN f(y) ELSE acc \o "," \o f(y), "", q)
CSName(q) == IF q = <<>> THEN "-" ELSE Join(q, LAMBDA y : y)
Vals(q)   == FoldLeft(LAMBDA acc, y : acc \o " " \o ToString(Val(y)), "", q)
Comps(q)  == [c \in {q[j] : j \in DOMAIN q} |-> Val(c)]
RS(r) == ToString(r - 1)

None == [o |-> [op |-> "none"], l |-> ""]
\* a pending command restricts what may be recorded (one registry at a time, an entity by one thread)
PendRegs(s) == {r \in Regs : \E t \in Threads : \E j \in DOMAIN s.q[t] : s.q[t][j].h \in s.issued[r]}
Owner(s, h, t) == \A u \in Threads \ {t} : \A j \in DOMAIN s.q[u] : s.q[u][j].h # h /\ (s.q[u][j].k = "clone" => s.q[u][j].src # h)
RecReg(s, x) == IF PendRegs(s) # {} THEN Rnd(PendRegs(s)) ELSE PickReg(x)

\* an entity a command of thread t may be about: <<r, h>> or <<0, "">>
CTargets(s, r, t, dead) ==
  {h \in (IF dead THEN {Null(r)} \cup (s.issued[r] \ (Live(s, r) \cup Unfilled(s, r))) ELSE Live(s, r) \cup s.res[r]) : Owner(s, h, t) /\ (dead \/ Profile # "cmds" \/ \A j \in DOMAIN s.q[t] : ~(s.q[t][j].k = "destroy" /\ s.q[t][j].h = h))}

Ent(s, F(_, _)) == IF Handles(s) = {} THEN None ELSE LET p == Rnd(Handles(s)) IN F(p[1], p[2])
Where(s, r, h, P(_)) == \E c \in CompsOf(s, r, h) : P(c)

SetOp(nm, r, h, c, v) == [o |-> [op |-> nm, r |-> r, h |-> h, c |-> c, v |-> v], l |-> nm \o " " \o h \o " " \o c \o " " \o ToString(v)]
CopyOp(nm, r, h, r2) == [o |-> [op |-> nm, r |-> r, h |-> h, r2 |-> r2, n |-> New],
                         l |-> IF nm = "clone" THEN nm \o " " \o h \o " " \o New ELSE nm \o " " \o h \o " " \o RS(r2) \o " " \o New]
Create(nm, t, r, q) ==
  [o |-> [op |-> nm, t |-> t, r |-> r, n |-> New, comps |-> Comps(q)],
   l |-> nm \o (IF nm = "ccreate" THEN " " \o ToString(t) ELSE "") \o " " \o RS(r) \o " " \o New \o " " \o CSName(q) \o Vals(q)]

Other(r) == CHOOSE x \in Regs : x # r
With(s, c) == {p \in Handles(s) : c \in CompsOf(s, p[1], p[2])}

Make(nm, s, x) ==
  CASE nm \in {"create", "burst"} -> Create("create", 0, PickReg(x), PickCombo(x))
    [] nm = "bulk" -> IF ~Chance(60, x) \/ Cardinality(Handles(s)) > 300 THEN None ELSE
         LET r == PickReg(x) q == Rnd({<<"A">>, <<"B">>, <<"T","A">>, <<"A","B","S">>, <<"S","B","A">>, <<"B","H">>, <<"H","B">>, <<"A","C","Q">>, <<"C","H","Q">>, <<"H","Q","C">>,
                                 <<"A","S","M","H">>, <<"T","S","H">>, <<"M","S">>, <<"L1">>, <<"L1","A">>, <<"A","L1">>, <<"L5","B">>, <<"C">>})
             sz == SumSizes({q[j] : j \in DOMAIN q})
             cap == ChunkBytes \div sz
             n == IF cap > 260 THEN Rnd(20..60) ELSE IF cap < 20 THEN Rnd(cap..40) ELSE cap - 6 + Rnd(1..16) IN
         [o |-> [op |-> "bulk", r |-> r, comps |-> Comps(q), ns |-> [j \in 1..n |-> New \o "_" \o ToString(j - 1)]],
          l |-> "bulk " \o RS(r) \o " " \o New \o " " \o ToString(n) \o " " \o CSName(q) \o Vals(q)]
    [] nm = "bulkkill" -> IF k < 2 THEN None ELSE
         LET pre == "e" \o ToString(Rnd(1..(k - 1)))
             a == Rnd(0..30)  z == a + Rnd(10..300)  st == Rnd(1..3)
             R == {r \in Regs : (pre \o "_0") \in s.issued[r]} IN
         IF R = {} THEN None ELSE LET r == Rnd(R) IN
         [o |-> [op |-> "bulkkill", r |-> r, hs |-> SelectSeq([j \in 1..(z - a) |-> IF (j - 1) % st = 0 THEN pre \o "_" \o ToString(a + j - 1) ELSE ""], LAMBDA y : y \in Live(s, r))],
          l |-> "bulkkill " \o RS(r) \o " " \o pre \o " " \o ToString(a) \o " " \o ToString(z) \o " " \o ToString(st)]
    [] nm = "churn" -> IF ~Chance(40, x) THEN None ELSE
         LET r == PickReg(x) md == IF \E t \in Threads : s.q[t] # <<>> THEN Rnd({0, 2}) ELSE Rnd(0..2) n == IF md = 0 /\ Chance(4, x) THEN 70000 ELSE Rnd(2..300) IN
         [o |-> [op |-> "churn", r |-> r, n |-> New, count |-> n, fresh |-> n, revived |-> 0],
          l |-> "churn " \o RS(r) \o " " \o New \o " " \o ToString(n) \o " " \o ToString(md)]
    [] nm = "crowd" -> IF ~Chance(50, x) THEN None ELSE
         LET kd == Rnd(0..4) n == IF kd \in {1, 2} THEN Rnd(1..2400) ELSE IF Chance(50, x) THEN Rnd(1..300) ELSE Rnd(1..6000) m == Rnd(1..12) z == Rnd(0..(m - 1)) n2 == Rnd({0, 0, 1, 5, 60})
             e == n - (IF z < n THEN (n - 1 - z) \div m + 1 ELSE 0) + n2 IN
         [o |-> [op |-> "crowd", n |-> n, m |-> m, x |-> z, n2 |-> n2, seen |-> [j \in 1..8 |-> <<e, e, 0>>]],
          l |-> "crowd " \o ToString(kd) \o " " \o ToString(n) \o " " \o ToString(m) \o " " \o ToString(z) \o " " \o ToString(n2)]
    [] nm = "hugecreate" -> Create("create", 0, PickReg(x), Rnd(HugeCombos))
    [] nm \in {"destroy", "burstkill"} -> Ent(s, LAMBDA r, h : [o |-> [op |-> "destroy", r |-> r, h |-> h], l |-> "destroy " \o h])
    [] nm = "set"   -> Ent(s, LAMBDA r, h : LET c == PickComp(x) IN SetOp("set", r, h, c, Val(c)))
    [] nm = "bigset" -> LET X == {p \in Handles(s) : SumSizes(CompsOf(s, p[1], p[2])) > 9500} IN
                        IF X = {} THEN Create("create", 0, PickReg(x), Rnd({<<"L5","L7">>, <<"L7","L5">>, <<"L9","L7">>}))
                        ELSE LET p == Rnd(X) c == Rnd({"L5", "L7", "L9"}) IN SetOp(Rnd({"set", "goi"}), p[1], p[2], c, Val(c))
    [] nm = "badset" -> Ent(s, LAMBDA r, h : LET c == Rnd(MayThrow) IN SetOp("set", r, h, c, Rnd({-1, -1, -2})))
    [] nm = "badgoi" -> Ent(s, LAMBDA r, h : LET c == Rnd(MayThrow) IN SetOp("goi", r, h, c, -1))
    [] nm = "goi"   -> Ent(s, LAMBDA r, h : LET c == PickComp(x) IN SetOp("goi", r, h, c, Val(c)))
    [] nm = "write" -> Ent(s, LAMBDA r, h : LET cs == CompsOf(s, r, h) IN IF cs = {} THEN None ELSE LET c == Rnd(cs) IN
                              SetOp("write", r, h, c, IF c \in MayThrow /\ Chance(20, x) THEN -2 ELSE IF c = "A" /\ Chance(20, x) THEN -1 ELSE Val(c)))
    [] nm = "remove" -> Ent(s, LAMBDA r, h : LET cs == CompsOf(s, r, h)
                                                c == IF cs = {} \/ Chance(20, x) THEN PickComp(x) ELSE Rnd(cs) IN
                              [o |-> [op |-> "remove", r |-> r, h |-> h, c |-> c], l |-> "remove " \o h \o " " \o c])
    [] nm \in {"setfrom", "badsetfrom"} -> Ent(s, LAMBDA r, h : LET cs == CompsOf(s, r, h) \cap {"A", "B", "H", "Q", "L5"} IN IF cs = {} THEN None ELSE
                              LET src == Rnd(cs) c == IF nm = "badsetfrom" THEN Rnd(MayThrow) ELSE Rnd(Small \ Unit) IN
                              [o |-> [op |-> "setfrom", r |-> r, h |-> h, c |-> c, src |-> src], l |-> "setfrom " \o h \o " " \o c \o " " \o src])
    [] nm \in {"get", "has", "missing"} -> Ent(s, LAMBDA r, h : LET q == Rnd(Queries) n2 == IF nm = "has" THEN "has" ELSE "get" IN
                              [o |-> [op |-> n2, r |-> r, h |-> h, cs |-> q], l |-> n2 \o " " \o h \o " " \o CSName(q)])
    [] nm = "clone" -> Ent(s, LAMBDA r, h : CopyOp("clone", r, h, r))
    [] nm = "copy"  -> Ent(s, LAMBDA r, h : CopyOp("copy", r, h, Rnd(Regs)))
    [] nm = "move"  -> Ent(s, LAMBDA r, h : CopyOp("move", r, h, Other(r)))
    [] nm = "noncopy" -> LET X == With(s, "M") IN IF X = {} THEN Create("create", 0, PickReg(x), Rnd({<<"M">>, <<"A","S","M","H">>, <<"M","A","B">>})) ELSE LET p == Rnd(X) IN
                              IF Chance(50, x) THEN CopyOp("clone", p[1], p[2], p[1]) ELSE CopyOp("copy", p[1], p[2], Rnd(Regs))
    [] nm = "badcopy" -> LET X == {p \in With(s, "B") \cup With(s, "H") : CopyErrors(s.ents[p[1]][p[2]]) # {}} IN
                         IF X = {} THEN LET Y == With(s, "B") \cup With(s, "H") IN IF Y = {} THEN Create("create", 0, PickReg(x), <<"A","B","S">>) ELSE LET p == Rnd(Y) c == Rnd(CompsOf(s, p[1], p[2]) \cap MayThrow) IN SetOp("write", p[1], p[2], c, -2)
                         ELSE LET p == Rnd(X) IN IF Chance(50, x) THEN CopyOp("clone", p[1], p[2], p[1]) ELSE CopyOp("copy", p[1], p[2], Rnd(Regs))
    [] nm = "stale" -> LET p == Rnd(Ghosts(s)) n2 == Rnd({"destroy","set","goi","remove","write","get","has","clone","copy","move"}) IN
                         (CASE n2 = "destroy" -> [o |-> [op |-> "destroy", r |-> p[1], h |-> p[2]], l |-> "destroy " \o p[2]]
                           [] n2 \in {"set", "goi", "write"} -> SetOp(n2, p[1], p[2], "A", 5)
                           [] n2 = "remove" -> [o |-> [op |-> "remove", r |-> p[1], h |-> p[2], c |-> "A"], l |-> "remove " \o p[2] \o " A"]
                           [] n2 \in {"get", "has"} -> [o |-> [op |-> n2, r |-> p[1], h |-> p[2], cs |-> <<"A">>], l |-> n2 \o " " \o p[2] \o " A"]
                           [] OTHER -> CopyOp(n2, p[1], p[2], IF n2 = "clone" THEN p[1] ELSE Other(p[1])))
    [] nm = "reserve" -> LET r == PickReg(x) IN [o |-> [op |-> "reserve", r |-> r, n |-> New], l |-> "reserve " \o RS(r) \o " " \o New]
    [] nm = "sync" -> LET r == PickReg(x) IN [o |-> [op |-> "sync", r |-> r], l |-> "sync " \o RS(r)]
    [] nm \in {"fillcopy", "fillmove"} ->
         LET R2 == {r \in Regs : \E p \in s.res[r] \cup s.held[r] : \A t \in Threads : \A j \in DOMAIN s.q[t] : s.q[t][j].h # p}
             n2 == IF nm = "fillcopy" THEN "copyto" ELSE "moveto" IN
         IF R2 = {} THEN None ELSE LET r2 == Rnd(R2) ps == {p \in s.res[r2] \cup s.held[r2] : \A t \in Threads : \A j \in DOMAIN s.q[t] : s.q[t][j].h # p} p == Rnd(ps) IN
         Ent(s, LAMBDA r, h : IF n2 = "moveto" /\ r = r2 THEN None ELSE
                [o |-> [op |-> n2, r |-> r, h |-> h, r2 |-> r2, p |-> p], l |-> n2 \o " " \o h \o " " \o p])
    [] nm = "newreg" -> IF ~Chance(25, x) THEN None ELSE LET r == Rnd(Regs) IN IF r \in PendRegs(s) THEN None ELSE [o |-> [op |-> "newreg", r |-> r], l |-> "newreg " \o RS(r)]
    [] nm \in {"view", "viewadd"} ->
         LET r == PickReg(x) q == Rnd(Queries \cup {<<>>, <<"A">>, <<"A","B">>, <<"B">>}) q2 == IF nm = "viewadd" /\ q = <<>> THEN <<"A">> ELSE q
             m == IF nm = "view" THEN Rnd(0..4) ELSE Rnd(2..4)
             mask == Rnd(1..31)
             ws == SelectSeq([j \in 1..Len(q2) |-> IF (mask \div (CASE j = 1 -> 1 [] j = 2 -> 2 [] j = 3 -> 4 [] j = 4 -> 8 [] OTHER -> 16)) % 2 = 1 /\ q2[j] \notin Unit /\ (m = 4 => j = 1) THEN q2[j] ELSE ""], LAMBDA y : y # "")
             rows == SetToSeq({RowOf(s, r, h, q2) : h \in Matching(s, r, q2)}) IN
         [o |-> [op |-> nm, r |-> r, cs |-> q2, wh |-> TRUE, ws |-> ws, v |-> 1000, rows |-> rows],
          l |-> nm \o " " \o RS(r) \o " " \o CSName(q2) \o " " \o ToString(Rnd(0..5)) \o " " \o ToString(m)
                \o (IF nm = "viewadd" THEN " " \o ToString(mask) \o " 1000" ELSE "")]
    [] nm = "viewstop" ->
         LET r == PickReg(x) q == Rnd(Queries \cup {<<"A">>, <<"A","B">>, <<"B">>, <<"S">>})
             kk == Rnd(1..6) mask == Rnd(0..31) f == Rnd({0, 1, 2, 4, 5})
             all == SetToSeq({RowOf(s, r, h, q) : h \in Matching(s, r, q)}) IN
         [o |-> [op |-> nm, r |-> r, cs |-> q, ws |-> <<>>, v |-> 1000, k |-> kk, thr |-> f \in {0, 4},
                 rows |-> SubSeq(all, 1, IF Len(all) < kk THEN Len(all) ELSE kk)],
          l |-> "viewstop " \o RS(r) \o " " \o CSName(q) \o " " \o ToString(f) \o " " \o ToString(Rnd({0, 2, 3, 4}))
                \o " " \o ToString(mask) \o " 1000 " \o ToString(kk)]
    [] nm = "visit" -> Ent(s, LAMBDA r, h :
         LET cs == IF h \in Live(s, r) THEN SetToSeq({<<c, s.ents[r][h][c]>> : c \in CompsOf(s, r, h)}) ELSE <<>> kk == Rnd(1..6) d == Rnd({0, 1000}) IN
         [o |-> [op |-> nm, r |-> r, h |-> h, v |-> d, k |-> kk, seen |-> SubSeq(cs, 1, IF Len(cs) < kk THEN Len(cs) ELSE kk)],
          l |-> "visit " \o h \o " " \o ToString(d) \o " " \o ToString(kk)])
    [] nm = "single" -> LET r == PickReg(x) q == Rnd(Queries) rows == SetToSeq({RowOf(s, r, h, q) : h \in Matching(s, r, q)}) IN
         [o |-> [op |-> "single", r |-> r, cs |-> q, wh |-> TRUE, rows |-> IF rows = <<>> THEN rows ELSE <<rows[1]>>],
          l |-> "single " \o RS(r) \o " " \o CSName(q) \o " " \o ToString(Rnd({0, 1, 2, 3, 4, 8, 9, 10, 11, 12}))]
    [] nm = "ccreate" -> Create("ccreate", Rnd(Threads), RecReg(s, x), PickCombo(x))
    [] nm \in {"cset", "cremove", "cdestroy", "cclone", "cstale", "cbadset", "cbadclone", "cbig"} ->
         LET t == Rnd(Threads)
             r == RecReg(s, x)
             X == LET all == CTargets(s, r, t, nm = "cstale") IN
                  IF nm = "cbadclone" THEN {h \in all : h \in Live(s, r) /\ CopyErrors(s.ents[r][h]) # {}} ELSE all IN
         IF X = {} \/ Len(s.q[t]) >= 5 THEN None ELSE
         LET h == Rnd(X)
             ts == ToString(t)
             n2 == IF nm = "cstale" THEN Rnd({"cset", "cremove", "cdestroy", "cclone"}) ELSE IF nm \in {"cbadset", "cbig"} THEN "cset" ELSE IF nm = "cbadclone" THEN "cclone" ELSE nm
             c == IF nm = "cbadset" THEN Rnd(MayThrow) ELSE IF nm = "cbig" THEN Rnd(Big) ELSE PickComp(x)
             v == IF nm = "cbadset" THEN -1 ELSE IF c \in MayThrow /\ Chance(20, x) THEN -2 ELSE Val(c) IN
         (CASE n2 = "cset" -> [o |-> [op |-> "cset", t |-> t, r |-> r, h |-> h, c |-> c, v |-> v], l |-> "cset " \o ts \o " " \o h \o " " \o c \o " " \o ToString(v)]
           [] n2 = "cremove" -> [o |-> [op |-> "cremove", t |-> t, r |-> r, h |-> h, c |-> c], l |-> "cremove " \o ts \o " " \o h \o " " \o c]
           [] n2 = "cdestroy" -> [o |-> [op |-> "cdestroy", t |-> t, r |-> r, h |-> h], l |-> "cdestroy " \o ts \o " " \o h]
           [] n2 = "cclone" -> [o |-> [op |-> "cclone", t |-> t, r |-> r, h |-> h, n |-> New], l |-> "cclone " \o ts \o " " \o h \o " " \o New])
    [] nm = "flush" -> LET r == IF PendRegs(s) # {} THEN Rnd(PendRegs(s)) ELSE PickReg(x)
                           ok == FlushOk(s, r) # {} IN
         [o |-> [op |-> "flush", r |-> r, res |-> IF ok THEN "ok" ELSE "x"], l |-> "flush " \o RS(r)]
    [] nm = "endthread" -> LET t == Rnd(Threads \ {0}) IN [o |-> [op |-> "endthread", t |-> t], l |-> "endthread " \o ToString(t)]
    [] OTHER -> None

\* while a burst lasts, entities of one component set are created or destroyed one after the other
BurstOp(s) ==
  IF burst.kind = "create" THEN Create("create", 0, burst.r, burst.q)
  ELSE LET X == {h \in Live(s, burst.r) : CompsOf(s, burst.r, h) = {burst.q[j] : j \in DOMAIN burst.q}} IN
       IF X = {} THEN None ELSE LET h == Rnd(X) IN [o |-> [op |-> "destroy", r |-> burst.r, h |-> h], l |-> "destroy " \o h]

NoBurst == [kind |-> "", n |-> 0, r |-> 1, q |-> <<>>]

\* the operation named nm, or a creation when it has no operands
Op(nm, x) ==
  LET m == IF burst.n > 0 THEN BurstOp(S) ELSE Make(nm, S, x) IN
  IF m.l = "" THEN Create("create", 0, PickReg(x), PickCombo(x)) ELSE m

PickName(x) == IF Cardinality(Handles(S)) > MaxEnts /\ Profile # "bulk" THEN "destroy" ELSE Weights[Rnd(1..Len(Weights))]

NewBurst(nm, m) ==
  IF burst.n > 0 THEN [burst EXCEPT !.n = @ - 1]
  ELSE IF nm = "burst" /\ m.o.op = "create"
       THEN [kind |-> "create", n |-> Rnd(2..14), r |-> m.o.r, q |-> IF DOMAIN m.o.comps = {} THEN <<"A","B","S">> ELSE LET q == {c \in Combos \cup BigCombos : {c[j] : j \in DOMAIN c} = DOMAIN m.o.comps} IN IF q = {} THEN <<"L5">> ELSE Rnd(q)]
  ELSE IF nm = "burstkill" /\ Handles(S) # {}
       THEN LET p == Rnd(Handles(S)) IN [kind |-> "kill", n |-> Rnd(2..14), r |-> p[1], q |-> SetToSeq(CompsOf(S, p[1], p[2]))]
  ELSE NoBurst

GInit == S = Init0 /\ i = 0 /\ k = 1 /\ burst = NoBurst

Outcome(m) == LET X == Exec(S, m.o) IN IF X = {} THEN [s |-> S, res |-> "skip", ret |-> ""] ELSE Rnd(X)

GNext ==
  /\ i < Steps
  /\ i' = i + 1
  /\ (i = 0 => PrintT(<<"L", "reset " \o ToString(Rnd(1..1000000))>>))
  /\ \E nm \in {PickName(i)} : \E m \in {Op(nm, i)} : \E out \in {Outcome(m)} :
       /\ PrintT(<<"L", m.l>>)
       /\ S' = out.s
       /\ Inv(out.s)
       /\ k' = k + 1
       /\ burst' = NewBurst(nm, m)

GSpec == GInit /\ [][GNext]_vars
=============================================================================
