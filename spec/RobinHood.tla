----------------------------- MODULE RobinHood -----------------------------
(* The table behind the hash map: open addressing, robin hood insertion,      *)
(* backward shift deletion, growth.  Checked to implement HashMap.tla's       *)
(* content (which keys are there), exhaustively for small tables; every       *)
(* transition is printed to be replayed on the real table.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils
CONSTANTS NKeys, N0, NMax, Edges
Mode == atoi(IOEnv.HASHMODE)
Keys == 0..(NKeys - 1)
Hash(k) == CASE Mode = 0 -> k [] Mode = 1 -> 0 [] Mode = 2 -> k \div 4 [] Mode = 3 -> k * 16 [] Mode = 4 -> 1023 - k
             [] Mode = 6 -> 15 [] Mode = 7 -> (k % 3) + 14 [] Mode = 8 -> (IF k % 2 = 1 THEN k ELSE 7) [] OTHER -> (k \div 3) * 5
NoKey == -1
VARIABLES tab,    \* bucket -> key or NoKey; the buckets are 0..N-1
          set,    \* what the map contains
          op
vars == <<tab, set>>
N(t) == Cardinality(DOMAIN t)
Home(t, k) == Hash(k) % N(t)
Psl(t, i) == (i - Home(t, t[i])) % N(t)       \* distance of the key in bucket i from its home
Size(t) == Cardinality({i \in DOMAIN t : t[i] # NoKey})
EmptyTab(n) == [i \in 0..(n - 1) |-> NoKey]
Init == tab = EmptyTab(N0) /\ set = {} /\ op = ""

RECURSIVE Place(_, _, _, _)
Place(t, k, i, psl) ==       \* k is carried at bucket i, psl away from its home
  IF t[i] = NoKey THEN [t EXCEPT ![i] = k]
  ELSE IF psl > Psl(t, i) THEN Place([t EXCEPT ![i] = k], t[i], (i + 1) % N(t), Psl(t, i) + 1)
  ELSE Place(t, k, (i + 1) % N(t), psl + 1)
RECURSIVE Lookup(_, _, _, _)
Lookup(t, k, i, psl) ==      \* bucket of k or -1
  IF t[i] = k THEN i
  ELSE IF t[i] = NoKey \/ psl > Psl(t, i) THEN -1
  ELSE Lookup(t, k, (i + 1) % N(t), psl + 1)
Find(t, k) == Lookup(t, k, Home(t, k), 0)
Put(t, k) == IF Find(t, k) # -1 THEN t ELSE Place(t, k, Home(t, k), 0)
RECURSIVE PutAll(_, _, _)
PutAll(t, from, i) == IF i = N(from) THEN t ELSE PutAll(IF from[i] = NoKey THEN t ELSE Place(t, from[i], Home(t, from[i]), 0), from, i + 1)
Rehash(t, n) == PutAll(EmptyTab(n), t, 0)
RECURSIVE Shift(_, _)
Shift(t, i) ==               \* bucket i is vacant
  LET j == (i + 1) % N(t) IN
  IF t[j] = NoKey \/ Psl(t, j) = 0 THEN [t EXCEPT ![i] = NoKey]
  ELSE Shift([t EXCEPT ![i] = t[j], ![j] = NoKey], j)
Remove(t, k) == LET i == Find(t, k) IN IF i = -1 THEN t ELSE Shift([t EXCEPT ![i] = NoKey], i)
Grown(t) == IF Size(t) > (N(t) * 870) \div 1024 THEN Rehash(t, 2 * N(t)) ELSE t

Insert(k) == /\ N(Grown(tab)) <= NMax
             /\ tab' = Put(Grown(tab), k) /\ set' = set \cup {k} /\ op' = "ins 1 emplace " \o ToString(k) \o " V"
Erase(k)  == tab' = Remove(tab, k) /\ set' = set \ {k} /\ op' = "erase 1 HOW " \o ToString(k)
Reserve(n) == n >= Size(tab) /\ n <= NMax /\ tab' = Rehash(tab, n) /\ set' = set /\ op' = "reserve 1 " \o ToString(n)
Clear == tab' = EmptyTab(N(tab)) /\ set' = {} /\ op' = "clear 1"
Next == (\E k \in Keys : Insert(k) \/ Erase(k)) \/ (\E n \in {2, 4, 8, 16} : Reserve(n)) \/ Clear
Spec == Init /\ [][Next]_<<vars, op>>
View == vars
FP(x) == ToString(TLCFP(x)) \o "." \o ToString(TLCFP(<<x, 1>>))
Emit == Edges => PrintT(<<"E", FP(vars), op', FP(vars')>>)

\* the table contains exactly the set, each key once, and the look-up finds exactly these
Same  == {tab[i] : i \in DOMAIN tab} \ {NoKey} = set /\ Size(tab) = Cardinality(set)
Finds == \A k \in Keys : IF k \in set THEN Find(tab, k) # -1 /\ tab[Find(tab, k)] = k ELSE Find(tab, k) = -1
\* robin hood: along a run of buckets no key is further from home than the one before it by more than one
Ordered == \A i \in DOMAIN tab : LET j == (i + 1) % N(tab) IN
             tab[j] # NoKey /\ Psl(tab, j) > 0 => tab[i] # NoKey /\ Psl(tab, j) <= Psl(tab, i) + 1
=============================================================================
