-------------------------------- MODULE Maps --------------------------------
(* The hash map and the sparse map as their users know them: up to three maps, *)
(* each a finite function from keys to values.  Every operation relates its   *)
(* result r to the content before and after.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Regs == 1..3
VARIABLE maps        \* register -> <<>> (no map) or <<function, width>>
hvars == <<maps>>
Empty == [x \in {} |-> 0]
On(i)  == maps[i] # <<>>
M(i)   == maps[i][1]
W0(i)  == maps[i][2]         \* the map takes keys with the same quotient by this for equal (1 unless it was told to)
Keys(i) == DOMAIN M(i)
\* the key of the map that equals k, or k
Eq(w, a, b) == a \div w = b \div w
Rep(i, k) == IF k \in Keys(i) \/ W0(i) = 1 THEN k ELSE LET S == {x \in Keys(i) : Eq(W0(i), x, k)} IN IF S = {} THEN k ELSE CHOOSE x \in S : TRUE
In(i, k)  == Rep(i, k) \in Keys(i)
At0(i, k) == M(i)[Rep(i, k)]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Set(i, f)    == maps' = [maps EXCEPT ![i] = <<f, W0(i)>>]
Same == maps' = maps
B(b) == IF b THEN 1 ELSE 0
RangeOf(s) == {s[j] : j \in DOMAIN s}
\* rows, one per key, as a function
DistinctW(rows, w) == \A a, b \in DOMAIN rows : Eq(w, rows[a][1], rows[b][1]) => a = b
AsMap(rows) == [k \in {rows[a][1] : a \in DOMAIN rows} |-> rows[CHOOSE a \in DOMAIN rows : rows[a][1] = k][2]]
Rows(f) == {<<k, f[k]>> : k \in DOMAIN f}

HInit == maps = [i \in Regs |-> <<>>]
New(i, w) == maps' = [maps EXCEPT ![i] = <<Empty, w>>]
\* of several values given for a key, one is taken; so is one of several equal keys
FromRange(i, given, rows, w) == /\ DistinctW(rows, w) /\ \A a \in DOMAIN rows : \E g, h \in DOMAIN given : given[g][1] = rows[a][1] /\ given[h][2] = rows[a][2] /\ Eq(w, given[g][1], given[h][1])
                                /\ {g[1] \div w : g \in RangeOf(given)} = {r[1] \div w : r \in RangeOf(rows)}
                                /\ maps' = [maps EXCEPT ![i] = <<AsMap(rows), w>>]
Delete(i) == maps' = [maps EXCEPT ![i] = <<>>]
Insert(i, k, v, r) == /\ On(i)
                      /\ r = <<Rep(i, k), IF In(i, k) THEN At0(i, k) ELSE v, B(~In(i, k))>>
                      /\ IF In(i, k) THEN Same ELSE Set(i, Put(M(i), k, v))
\* the key of the map stays, or becomes the given one
Assign(i, k, v, r) == /\ On(i) /\ \E y \in {Rep(i, k), k} :
                           r = <<y, v, B(~In(i, k))>> /\ Set(i, Put(Drop(M(i), Rep(i, k)), y, v))
\* an element of the map is inserted again: k if it is there, any other if not
SelfInsert(i, k, r) == /\ On(i) /\ Same
                       /\ IF Keys(i) = {} THEN r = <<>>
                          ELSE \E x \in (IF In(i, k) THEN {Rep(i, k)} ELSE Keys(i)) : r = <<x, M(i)[x], 0>>
\* an element of the map is given as the value of another key
Alias(i, a, b, r) == IF On(i) /\ In(i, a) THEN Insert(i, b, At0(i, a), r) ELSE On(i) /\ Same /\ r = <<>>
Sub(i, k, r) == /\ On(i)
                /\ r = <<IF In(i, k) THEN At0(i, k) ELSE 0>>
                /\ IF In(i, k) THEN Same ELSE Set(i, Put(M(i), k, 0))
SubWrite(i, k, v) == On(i) /\ Set(i, Put(M(i), Rep(i, k), v))
At(i, k, r) == On(i) /\ Same /\ r = IF In(i, k) THEN <<At0(i, k)>> ELSE <<>>
Find(i, k, r) == On(i) /\ Same /\ r = IF In(i, k) THEN <<Rep(i, k), At0(i, k)>> ELSE <<>>
FindWrite(i, k, v, r) == /\ On(i)
                         /\ IF In(i, k) THEN r = <<1>> /\ Set(i, Put(M(i), Rep(i, k), v)) ELSE r = <<>> /\ Same
Rest(i, k, r) == On(i) /\ Same /\ r = IF In(i, k) THEN <<1, Rep(i, k)>> ELSE <<1, -1>>
Count(i, k, r) == On(i) /\ Same /\ r = <<B(In(i, k)), B(In(i, k))>>
Probe(i, n, r) == On(i) /\ Same /\ r = [j \in 1..n |-> IF In(i, j - 1) THEN At0(i, j - 1) ELSE -1]
\* some report how many elements were erased
Erase(i, k, r) == On(i) /\ r \in {<<>>, <<B(In(i, k))>>} /\ (IF In(i, k) THEN Set(i, Drop(M(i), Rep(i, k))) ELSE Same)
Clear(i) == On(i) /\ Set(i, Empty)
Reserve(i) == On(i) /\ Same
Bump(i, d) == On(i) /\ Set(i, [k \in Keys(i) |-> M(i)[k] + d])
Dump(i, rows, empty) == On(i) /\ Same /\ Len(rows) = Cardinality(Keys(i)) /\ RangeOf(rows) = Rows(M(i)) /\ empty = B(Keys(i) = {})
\* n keys in a map of their own, those with a number x modulo m erased, inserted again, the map copied and moved: sizes,
\* elements met, elements met that should not be (or not so), keys found
Crowd(i, n, m, x, r) == LET e == n - (IF x < n THEN (n - 1 - x) \div m + 1 ELSE 0) IN
                        On(i) /\ Same /\ r = <<n, n, 0, n, e, e, 0, e, n, n, 0, n, n, n, 0, n, n, n, 0, n>>
Copy(i, j) == On(j) /\ maps' = [maps EXCEPT ![i] = maps[j]]
Swap(i, j) == On(i) /\ On(j) /\ maps' = [maps EXCEPT ![i] = maps[j], ![j] = maps[i]]
\* the source is left with any content, and with the equality of either map or the one it would have been made with
MoveTo(i, j, src) == /\ On(j)
                     /\ \E w \in {1, W0(j)} \cup (IF On(i) THEN {W0(i)} ELSE {}) :
                          /\ DistinctW(src, w)
                          /\ IF i = j THEN w = W0(i) /\ Set(i, AsMap(src))
                             ELSE maps' = [maps EXCEPT ![i] = maps[j], ![j] = <<AsMap(src), w>>]
\* what is reported after every operation: sizes, number of live value and key objects (-1: not counted)
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (IF x = 0 \/ maps'[x] = <<>> THEN 0 ELSE Cardinality(DOMAIN maps'[x][1])) + SumOf(S \ {x})
Report(ns, lv, lk) == /\ ns = [i \in Regs |-> IF maps'[i] = <<>> THEN -1 ELSE Cardinality(DOMAIN maps'[i][1])]
                      /\ lv \in {-1, SumOf(Regs)} /\ lk \in {-1, SumOf(Regs)}
=============================================================================
