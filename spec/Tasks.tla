------------------------------- MODULE Tasks -------------------------------
(* Tasks of the thread pool (C12).  A task is submitted, starts once, ends    *)
(* once; it may have a parent, submitted before it.  A wait for a task may    *)
(* return only when the task and everything below it has ended, and then      *)
(* everything these tasks wrote is visible; a task sees what its submitter    *)
(* wrote before submitting it.  Task 0 stands for the main thread.            *)
EXTENDS Integers, FiniteSets, TLC

VARIABLES sub,      \* submitted tasks
          par,      \* par[i]: parent of the submitted task i, 0 if none
          by,       \* by[i]: who submitted it
          started, ended,
          waits,    \* <<waiter, task>> : waits in progress
          closed,   \* <<looker, task>> : has seen that it is complete, and nothing has been submitted below it since
          workers,  \* number of workers
          who       \* thread -> number of its worker
tvars == <<sub, par, by, started, ended, waits, closed, workers, who>>

NoTasks == sub' = {} /\ par' = <<>> /\ by' = <<>> /\ started' = {} /\ ended' = {} /\ waits' = {} /\ closed' = {}
TaskInit == workers = 0 /\ who = <<>> /\ closed = {} /\ sub = {} /\ par = <<>> /\ by = <<>> /\ started = {} /\ ended = {} /\ waits = {}

RECURSIVE Closure(_)
Closure(s) == LET n == s \cup {i \in sub : par[i] \in s} IN IF n = s THEN s ELSE Closure(n)
Below(i) == Closure({i})

RECURSIVE Above(_)
Above(i) == IF i = 0 THEN {} ELSE {i} \cup Above(par[i])

\* a pool of n workers: they are numbered from 0, the thread that creates the pool is the first one;
\* it is the pool that get() gives, and there is no second one next to it
Pool(n, ids, t, w, mine, second) ==
  /\ ids = [j \in 1..n |-> j - 1] /\ w = 0 /\ mine /\ ~second
  /\ workers' = n /\ who' = t :> w
  /\ NoTasks
\* every thread has its worker
Worker(t, w) ==
  /\ w \in 0..(workers - 1)
  /\ IF t \in DOMAIN who THEN who[t] = w ELSE \A x \in DOMAIN who : who[x] # w
  /\ who' = IF t \in DOMAIN who THEN who ELSE who @@ (t :> w)

Running(i) == i = 0 \/ (i \in started /\ i \notin ended)

Submit(i, p, b) ==
  /\ i \notin sub /\ i > 0 /\ Running(b) /\ p \in sub \cup {0}
  /\ sub' = sub \cup {i}
  /\ par' = [x \in sub \cup {i} |-> IF x = i THEN p ELSE par[x]]
  /\ by' = [x \in sub \cup {i} |-> IF x = i THEN b ELSE by[x]]
  /\ closed' = {c \in closed : c[2] \notin Above(p)}
  /\ UNCHANGED <<started, ended, waits, workers, who>>
Start(i, t, w) == i \in sub \ started /\ started' = started \cup {i} /\ Worker(t, w) /\ UNCHANGED <<sub, par, by, ended, waits, closed, workers>>
End(i) == i \in started \ ended /\ (\A w \in waits : w[1] # i) /\ ended' = ended \cup {i} /\ UNCHANGED <<sub, par, by, started, waits, closed, workers, who>>
Wait(b, i) == i \in sub /\ Running(b) /\ waits' = waits \cup {<<b, i>>} /\ UNCHANGED <<sub, par, by, started, ended, closed, workers, who>>
\* the wait of b for i returns, and b can see the effects of `seen`
Done(b, i, seen) ==
  /\ <<b, i>> \in waits
  /\ Below(i) \subseteq ended
  /\ Below(i) \subseteq seen
  /\ waits' = waits \ {<<b, i>>} /\ closed' = closed \cup {<<b, i>>}
  /\ UNCHANGED <<sub, par, by, started, ended, workers, who>>
\* b, who has submitted i, asks for its parent and whether it is complete
Poll(b, i, p, complete, seen) ==
  /\ i \in sub /\ by[i] = b /\ Running(b) /\ p = par[i]
  /\ complete => Below(i) \subseteq ended /\ Below(i) \subseteq seen
  /\ ~complete => <<b, i>> \notin closed
  /\ closed' = IF complete THEN closed \cup {<<b, i>>} ELSE closed
  /\ UNCHANGED <<sub, par, by, started, ended, waits, workers, who>>
\* the pool is gone: everything that has started has ended
Finish == waits = {} /\ started = ended
Root(i) == par[i] = 0
=============================================================================
