---------------------------- MODULE SparseDense ----------------------------
(* The two arrays of the sparse map: dense holds the keys in use, sparse the   *)
(* place of each key (possibly stale).  Checked to contain exactly the set;    *)
(* every transition is printed to be replayed on the real map.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt
CONSTANTS NKeys, Edges
Keys == 0..(NKeys - 1)
VARIABLES dense, sparse, set, op
vars == <<dense, sparse, set>>
Init == dense = <<>> /\ sparse = <<>> /\ set = {} /\ op = ""
\* places are counted from 1; sparse[k + 1] is the place of key k
In(d, s, k) == k + 1 <= Len(s) /\ s[k + 1] + 1 <= Len(d) /\ d[s[k + 1] + 1] = k
Sized(s, n) == [i \in 1..(IF n > Len(s) THEN n ELSE Len(s)) |-> IF i <= Len(s) THEN s[i] ELSE 0]
Emplace(k) == /\ op' = "ins 1 emplace " \o ToString(k) \o " V" /\ set' = set \cup {k}
              /\ IF In(dense, sparse, k) THEN UNCHANGED <<dense, sparse>>
                 ELSE dense' = Append(dense, k) /\ sparse' = [Sized(sparse, k + 1) EXCEPT ![k + 1] = Len(dense)]
Erase(k) == /\ op' = "erase 1 HOW " \o ToString(k) /\ set' = set \ {k}
            /\ IF ~In(dense, sparse, k) THEN UNCHANGED <<dense, sparse>>
               ELSE LET p == sparse[k + 1] last == dense[Len(dense)] d == [dense EXCEPT ![p + 1] = last] IN
                    dense' = SubSeq(d, 1, Len(d) - 1) /\ sparse' = [sparse EXCEPT ![last + 1] = p]
Clear == dense' = <<>> /\ sparse' = sparse /\ set' = {} /\ op' = "clear 1"
Next == (\E k \in Keys : Emplace(k) \/ Erase(k)) \/ Clear
Spec == Init /\ [][Next]_<<vars, op>>
View == vars
FP(x) == ToString(TLCFP(x)) \o "." \o ToString(TLCFP(<<x, 1>>))
Emit == Edges => PrintT(<<"E", FP(vars), op', FP(vars')>>)
Content == {dense[i] : i \in DOMAIN dense} = set /\ Len(dense) = Cardinality(set)
Finds == \A k \in Keys : In(dense, sparse, k) <=> k \in set
=============================================================================
