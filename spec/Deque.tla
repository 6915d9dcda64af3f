------------------------------- MODULE Deque -------------------------------
(* Work-stealing queue (C14): an owner (thread 0) pushes and pops at one end, *)
(* thieves steal at the other.  Each operation takes effect at one instant    *)
(* between its call and its return.  A consumer may report "empty" when the   *)
(* queue is empty at that instant, or when another consumer's operation       *)
(* overlaps its own; in weak mode (no real-time order between threads that    *)
(* did not synchronise) a thief may not have seen the pushes yet.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Threads, MaxVal
None == [k |-> "none", v |-> 0, done |-> FALSE, res |-> 0, ov |-> FALSE]
Owner == 0
Empty == 0

VARIABLES q, pend, weak, pushed, taken
dvars == <<q, pend, weak, pushed, taken>>

DInit == q = <<>> /\ pend = [t \in Threads |-> None] /\ weak \in BOOLEAN /\ pushed = {} /\ taken = {}

Consuming(t) == pend[t].k \in {"pop", "steal"}

Invoke(t, k, v) ==
  /\ pend[t].k = "none"
  /\ k \in {"push", "pop"} => t = Owner
  /\ k = "push" => v \notin pushed /\ v # Empty
  /\ LET clash == k # "push" /\ \E u \in Threads : u # t /\ Consuming(u) IN
     pend' = [u \in Threads |->
                IF u = t THEN [k |-> k, v |-> v, done |-> FALSE, res |-> Empty, ov |-> clash]
                ELSE IF clash /\ Consuming(u) THEN [pend[u] EXCEPT !.ov = TRUE] ELSE pend[u]]
  /\ pushed' = IF k = "push" THEN pushed \cup {v} ELSE pushed
  /\ UNCHANGED <<q, weak, taken>>

\* the instant at which the operation of t takes effect
Effect(t) ==
  /\ pend[t].k # "none" /\ ~pend[t].done
  /\ CASE pend[t].k = "push" ->
            /\ q' = Append(q, pend[t].v)
            /\ pend' = [pend EXCEPT ![t].done = TRUE]
            /\ UNCHANGED taken
       [] pend[t].k = "pop" /\ q # <<>> ->
            /\ q' = SubSeq(q, 1, Len(q) - 1)
            /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = q[Len(q)]]
            /\ taken' = taken \cup {q[Len(q)]}
       [] pend[t].k = "steal" /\ q # <<>> ->
            /\ q' = Tail(q)
            /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = Head(q)]
            /\ taken' = taken \cup {Head(q)}
       [] OTHER -> /\ pend' = [pend EXCEPT ![t].done = TRUE]
                   /\ UNCHANGED <<q, taken>>
  /\ UNCHANGED <<weak, pushed>>

\* an operation that reports "empty" although there are elements
Spurious(t) ==
  /\ Consuming(t) /\ ~pend[t].done
  /\ pend[t].ov \/ (weak /\ t # Owner)
  /\ pend' = [pend EXCEPT ![t].done = TRUE]
  /\ UNCHANGED <<q, weak, pushed, taken>>

Return(t, v) ==
  /\ pend[t].k # "none" /\ pend[t].done /\ pend[t].res = v
  /\ pend' = [pend EXCEPT ![t] = None]
  /\ UNCHANGED <<q, weak, pushed, taken>>

Quiet == \A t \in Threads : pend[t].k = "none"

DNext ==
  \E t \in Threads :
    \/ \E v \in 1..MaxVal : Invoke(t, "push", v)
    \/ Invoke(t, "pop", 0) \/ Invoke(t, "steal", 0)
    \/ Effect(t) \/ Spurious(t) \/ \E v \in 0..MaxVal : Return(t, v)
DSpec == DInit /\ [][DNext]_dvars

\* exactly once: an element is waiting to be put, in the queue, or taken - never two of these, never none
InQ == {q[i] : i \in DOMAIN q}
Waiting == {pend[t].v : t \in {u \in Threads : pend[u].k = "push" /\ ~pend[u].done}}
Conservation ==
  /\ pushed = Waiting \cup InQ \cup taken
  /\ Waiting \cap InQ = {} /\ InQ \cap taken = {} /\ Waiting \cap taken = {}
  /\ Cardinality(InQ) = Len(q)
\* thieves see the elements in the order of pushing
Fifo == \A i, j \in DOMAIN q : i < j => q[i] # q[j]
=============================================================================
