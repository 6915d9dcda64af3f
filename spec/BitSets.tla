------------------------------ MODULE BitSets ------------------------------
(* The vector of words behind component sets: words at the end that are zero   *)
(* are not kept, so that equal sets are equal vectors.  Checked to be sets for  *)
(* all histories of two sets; every transition is printed to be replayed.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt
CONSTANTS NIds, Edges
Ids == 0..(NIds - 1)
\* ids 0 and 1 share a word, the others have one each
Word(x) == IF x < 2 THEN 1 ELSE x
VARIABLES words,   \* 1..2 -> sequence of words, each the set of its ids
          sets,    \* 1..2 -> what they contain
          op
vars == <<words, sets>>
Init == words = [s \in 1..2 |-> <<{}>>] /\ sets = [s \in 1..2 |-> {}] /\ op = ""
Long(w, n) == [x \in 1..(IF n > Len(w) THEN n ELSE Len(w)) |-> IF x <= Len(w) THEN w[x] ELSE {}]
RECURSIVE Trim(_)
Trim(w) == IF Len(w) > 1 /\ w[Len(w)] = {} THEN Trim(SubSeq(w, 1, Len(w) - 1)) ELSE w
Insert(s, x) == /\ words' = [words EXCEPT ![s] = [Long(@, Word(x)) EXCEPT ![Word(x)] = @ \cup {x}]]
                /\ sets' = [sets EXCEPT ![s] = @ \cup {x}] /\ op' = "ins " \o ToString(s) \o " P" \o ToString(x)
Erase(s, x) == /\ words' = [words EXCEPT ![s] = Trim([Long(@, Word(x)) EXCEPT ![Word(x)] = @ \ {x}])]
               /\ sets' = [sets EXCEPT ![s] = @ \ {x}] /\ op' = "era " \o ToString(s) \o " P" \o ToString(x)
Clear(s) == words' = [words EXCEPT ![s] = <<{}>>] /\ sets' = [sets EXCEPT ![s] = {}] /\ op' = "clr " \o ToString(s)
Copy(s, t) == words' = [words EXCEPT ![s] = words[t]] /\ sets' = [sets EXCEPT ![s] = sets[t]] /\ op' = "copya " \o ToString(s) \o " " \o ToString(t)
Next == \/ \E s \in 1..2, x \in Ids : Insert(s, x) \/ Erase(s, x)
        \/ \E s \in 1..2 : Clear(s) \/ \E t \in 1..2 : Copy(s, t)
Spec == Init /\ [][Next]_<<vars, op>>
View == vars
FP(x) == ToString(TLCFP(x)) \o "." \o ToString(TLCFP(<<x, 1>>))
Emit == Edges => PrintT(<<"E", FP(vars), op', FP(vars')>>)
Content == \A s \in 1..2 : UNION {words[s][x] : x \in DOMAIN words[s]} = sets[s] /\ \A x \in DOMAIN words[s] : \A y \in words[s][x] : Word(y) = x
Equality == (words[1] = words[2]) <=> (sets[1] = sets[2])
=============================================================================
