----------------------------- MODULE HandlePool -----------------------------
(* Handles given out by a registry (C09).  A handle is given out once, by a   *)
(* creation or by a reservation of any thread.  A reserved handle names an    *)
(* alive entity at the latest after the next synchronisation.                 *)
EXTENDS Integers, FiniteSets, TLC

VARIABLES given,  \* every handle given out so far
          alive,  \* handles that must be alive
          open,   \* reserved, not synchronised
          filled  \* entities that have been given their components
hvars == <<given, alive, open, filled>>
HInit == given = {} /\ alive = {} /\ open = {} /\ filled = {}
Create(h)  == h \notin given /\ given' = given \cup {h} /\ alive' = alive \cup {h} /\ filled' = filled \cup {h} /\ UNCHANGED open
Reserve(h) == h \notin given /\ given' = given \cup {h} /\ open' = open \cup {h} /\ UNCHANGED <<alive, filled>>
Sync       == alive' = alive \cup open /\ open' = {} /\ UNCHANGED <<given, filled>>
Fill(h)    == h \in alive \ filled /\ filled' = filled \cup {h} /\ UNCHANGED <<given, alive, open>>
Destroy(h) == h \in filled /\ alive' = alive \ {h} /\ filled' = filled \ {h} /\ UNCHANGED <<given, open>>
\* what the registry reports of the handles given out
Report(obs, size) == alive \subseteq obs /\ obs \subseteq alive \cup open /\ size = Cardinality(filled)
HInv == filled \subseteq alive /\ alive \cup open \subseteq given /\ alive \cap open = {}
=============================================================================
