---------------------------- MODULE ParallelFor ----------------------------
(* parallel_for and parallel iteration (C13): a loop over n elements calls    *)
(* the function exactly once for each of them, in any order, and returns when *)
(* all calls have been made; their effects are visible to the caller then.    *)
(* Loops may be nested and concurrent.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES loops   \* loop id -> [n, called, open]
pvars == <<loops>>
PInit == loops = <<>>
Ids == DOMAIN loops
Begin(i, n) == /\ i \notin Ids
               /\ loops' = [x \in Ids \cup {i} |-> IF x = i THEN [n |-> n, called |-> {}, open |-> TRUE] ELSE loops[x]]
Call(i, k) == /\ i \in Ids /\ loops[i].open
              /\ k \in 0..(loops[i].n - 1) /\ k \notin loops[i].called
              /\ loops' = [loops EXCEPT ![i].called = @ \cup {k}]
\* effects[k+1]: how many calls for element k the caller can see
Return(i, effects) ==
  /\ i \in Ids /\ loops[i].open
  /\ loops[i].called = 0..(loops[i].n - 1)
  /\ Len(effects) = loops[i].n /\ \A k \in DOMAIN effects : effects[k] = 1
  /\ loops' = [loops EXCEPT ![i].open = FALSE]
AllReturned == \A i \in Ids : ~loops[i].open
=============================================================================
