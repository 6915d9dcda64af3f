----------------------------- MODULE StorageHist -----------------------------
(* All complete histories of N entities of one component set under            *)
(* Storage.tla: created in order, leaving the set in every possible order and  *)
(* at every possible time.  Storage.tla merges histories that lead to the same *)
(* state; an implementation that deviates may remember more than that state,   *)
(* so here every history is kept apart and replayed on the real registry.      *)
EXTENDS Storage, SequencesExt

CONSTANTS N,        \* entities
          Focus,    \* their component set
          Late,     \* TRUE: nothing leaves before all are created
          Adds      \* components whose addition is another way to leave the set

VARIABLES hist, made

HInit == Init /\ hist = <<>> /\ made = 0
Inside == {h \in Live : loc[h][1] = Focus}
HNext ==
  /\ \/ made < N /\ Create(Focus) /\ made' = made + 1
     \/ (~Late \/ made = N) /\ made' = made /\ \E h \in Inside : Destroy(h) \/ \E c \in Adds : Add(h, c)
  /\ hist' = Append(hist, op')
HSpec == HInit /\ [][HNext]_<<vars, op, hist, made>>
Whole == made = N /\ Inside = {}
Show == Whole => PrintT("H|" \o FoldLeft(LAMBDA a, x : a \o x \o ";", "", hist))
=============================================================================
