------------------------------ MODULE Schedule ------------------------------
(* Schedules (C10, C11).  Making an executor executes the init systems, each  *)
(* run executes the systems of the stages, one stage after the other.         *)
(* Systems whose access can interfere never execute at the same time.         *)
(* Commands take effect when the making or the run ends.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* access of the kinds of systems: components read, components written, access to the whole registry, commands
Acc(k) ==
  CASE k = 0  -> [r |-> {}, w |-> {}, reg |-> "none", cmd |-> FALSE]
    [] k \in {1, 9, 19, 20, 27} -> [r |-> IF k \in {9, 27} THEN {"A"} ELSE {}, w |-> {"A"}, reg |-> "none", cmd |-> FALSE]
    [] k \in {2, 31} -> [r |-> {"A"}, w |-> {}, reg |-> "none", cmd |-> FALSE]
    [] k \in {3, 25} -> [r |-> {}, w |-> {"B"}, reg |-> "none", cmd |-> FALSE]
    [] k \in {4, 37} -> [r |-> {"B"}, w |-> {}, reg |-> "none", cmd |-> FALSE]
    [] k = 5  -> [r |-> {"B"}, w |-> {"A"}, reg |-> "none", cmd |-> FALSE]
    [] k = 6  -> [r |-> {"A", "B"}, w |-> {}, reg |-> "none", cmd |-> FALSE]
    [] k = 7  -> [r |-> {}, w |-> {"A", "B"}, reg |-> "none", cmd |-> FALSE]
    [] k = 8  -> [r |-> {"A"}, w |-> {"B"}, reg |-> "none", cmd |-> FALSE]
    [] k \in {10, 41} -> [r |-> {}, w |-> {}, reg |-> "write", cmd |-> FALSE]
    [] k \in {11, 39} -> [r |-> {}, w |-> {}, reg |-> "read", cmd |-> FALSE]
    [] k = 12 -> [r |-> {}, w |-> {}, reg |-> "none", cmd |-> TRUE]
    [] k = 13 -> [r |-> {"A"}, w |-> {}, reg |-> "none", cmd |-> TRUE]
    [] k = 14 -> [r |-> {"entity"}, w |-> {}, reg |-> "none", cmd |-> FALSE]
    [] k \in {15, 29} -> [r |-> {}, w |-> {"C"}, reg |-> "none", cmd |-> FALSE]
    [] k = 16 -> [r |-> {"C"}, w |-> {"A"}, reg |-> "none", cmd |-> FALSE]
    [] k = 17 -> [r |-> {}, w |-> {"A"}, reg |-> "write", cmd |-> FALSE]
    [] k = 18 -> [r |-> {}, w |-> {"C"}, reg |-> "none", cmd |-> TRUE]
    [] k = 21 -> [r |-> {"Mark"}, w |-> {}, reg |-> "none", cmd |-> FALSE]
    [] k = 22 -> [r |-> {"B"}, w |-> {"A", "C"}, reg |-> "none", cmd |-> FALSE]
    [] k = 23 -> [r |-> {"C", "entity"}, w |-> {}, reg |-> "none", cmd |-> FALSE]
    [] k = 24 -> [r |-> {}, w |-> {}, reg |-> "write", cmd |-> TRUE]
    [] k = 26 -> [r |-> {"A", "B", "C"}, w |-> {}, reg |-> "none", cmd |-> FALSE]
    [] k = 28 -> [r |-> {"A", "C"}, w |-> {"B"}, reg |-> "none", cmd |-> FALSE]
    [] k = 30 -> [r |-> {}, w |-> {"B"}, reg |-> "read", cmd |-> FALSE]
    [] k \in {32, 38} -> [r |-> {}, w |-> {"A"}, reg |-> "none", cmd |-> FALSE]
    [] k = 33 -> [r |-> {"B"}, w |-> {}, reg |-> "none", cmd |-> TRUE]
    [] k = 34 -> [r |-> {"Late"}, w |-> {}, reg |-> "none", cmd |-> FALSE]
    [] k = 35 -> [r |-> {}, w |-> {"Late"}, reg |-> "none", cmd |-> FALSE]
    [] k = 36 -> [r |-> {"A"}, w |-> {"Late"}, reg |-> "none", cmd |-> FALSE]
    [] k = 40 -> [r |-> {"A", "Late"}, w |-> {"C"}, reg |-> "none", cmd |-> FALSE]
    [] k = 42 -> [r |-> {"A", "B"}, w |-> {"B"}, reg |-> "none", cmd |-> FALSE]
Kinds == 0..42

Interferes(a, b) ==
  \/ a.w \cap (b.r \cup b.w) # {}
  \/ a.reg = "write" /\ (b.reg # "none" \/ b.cmd \/ b.r \cup b.w # {})
  \/ a.reg = "read" /\ b.w # {}
Conflict(k1, k2) == Interferes(Acc(k1), Acc(k2)) \/ Interferes(Acc(k2), Acc(k1))

VARIABLES systems,  \* number -> [kind, main, stage]; stage 0: init system
          phase,    \* "idle", "making", "running"
          reg, th,  \* registry and thread of the current making or run
          running, finished,
          marks,    \* entities made by commands, per registry
          exec,     \* the executor that is being made or runs
          made      \* executors: the context they were given (0: none), how often they have run
svars == <<systems, phase, reg, th, running, finished, marks, exec, made>>

SInit == exec = 0 /\ made = <<>> /\ systems = <<>> /\ phase = "idle" /\ reg = 0 /\ th = 0 /\ running = {} /\ finished = {} /\ marks = [r \in {1, 2} |-> 0]

Sys == DOMAIN systems
Todo == {s \in Sys : (phase = "making") = (systems[s].stage = 0)}
Earlier(s) == {x \in Todo : systems[x].stage < systems[s].stage}

AddSystem(s, k, m, st) ==
  /\ phase = "idle" /\ s \notin Sys /\ k \in Kinds
  /\ systems' = [x \in Sys \cup {s} |-> IF x = s THEN [kind |-> k, main |-> m, stage |-> st] ELSE systems[x]]
  /\ UNCHANGED <<phase, reg, th, running, finished, marks, exec, made>>
Enter(p, r, t, x) ==
  /\ phase = "idle" /\ exec' = x
  /\ phase' = p /\ reg' = r /\ th' = t /\ running' = {} /\ finished' = {}
  /\ UNCHANGED <<systems, marks>>
Make(r, t, x, c) == Enter("making", r, t, x) /\ x \notin DOMAIN made /\ made' = made @@ (x :> [ctx |-> c, runs |-> 0])
Run(r, t, x) == Enter("running", r, t, x) /\ x \in DOMAIN made /\ UNCHANGED made
\* system s starts on thread t; it sees the effects of `seen` and m entities made by commands,
\* is given the context c and has been executed n times by this executor (-1: it does not look)
InOrder(s, t, seen, m, c, n) ==
  /\ phase # "idle" /\ s \in Todo \ (running \cup finished)
  /\ Earlier(s) \subseteq finished
  /\ Earlier(s) \subseteq seen
  /\ systems[s].main => t = th
  /\ m \in {-1, marks[reg]}
  /\ c \in {-1, made[exec].ctx}
  /\ n \in {-1, made[exec].runs}
Alone(s) == \A x \in running : ~Conflict(systems[x].kind, systems[s].kind)
BeginSys(s, t, seen, m, c, n) ==
  /\ InOrder(s, t, seen, m, c, n) /\ Alone(s)
  /\ running' = running \cup {s}
  /\ UNCHANGED <<systems, phase, reg, th, finished, marks, exec, made>>
\* the two properties on their own: C10 without exclusion, C11 without order
BeginOrdered(s, t, seen, m, c, n) ==
  /\ InOrder(s, t, seen, m, c, n) /\ running' = running \cup {s} /\ UNCHANGED <<systems, phase, reg, th, finished, marks, exec, made>>
BeginAlone(s) ==
  /\ Alone(s) /\ running' = running \cup {s} /\ UNCHANGED <<systems, phase, reg, th, finished, marks, exec, made>>
EndSys(s) ==
  /\ s \in running
  /\ running' = running \ {s} /\ finished' = finished \cup {s}
  /\ UNCHANGED <<systems, phase, reg, th, marks, exec, made>>
Recorded == Cardinality({s \in finished : Acc(systems[s].kind).cmd})
Leave(p, m) ==
  /\ phase = p /\ running = {} /\ finished = Todo
  /\ m = marks[reg] + Recorded
  /\ marks' = [marks EXCEPT ![reg] = m]
  /\ phase' = "idle"
  /\ made' = [made EXCEPT ![exec].runs = IF p = "running" THEN @ + 1 ELSE @]
  /\ UNCHANGED <<systems, reg, th, running, finished, exec>>
NoConflict == \A x, y \in running : x # y => ~Conflict(systems[x].kind, systems[y].kind)
=============================================================================
