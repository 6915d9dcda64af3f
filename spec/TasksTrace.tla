----------------------------- MODULE TasksTrace -----------------------------
EXTENDS Tasks, Json, IOUtils, Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, waited
vars == <<sub, par, by, started, ended, waits, closed, workers, who, l, waited>>
Range(s) == {s[i] : i \in DOMAIN s}
Ev(e) ==
  CASE e.op = "reset" -> NoTasks /\ workers' = 0 /\ who' = <<>> /\ waited' = {}
    [] e.op = "pool"  -> Pool(e.n, e.ids, e.th, e.w, e.mine, e.second) /\ waited' = {}
    [] e.op = "sub"   -> Submit(e.id, e.par, e.by) /\ UNCHANGED waited
    [] e.op = "start" -> Start(e.id, e.th, e.w) /\ e.pre = 1 /\ UNCHANGED waited
    \* its function has been there all the time
    [] e.op = "end"   -> End(e.id) /\ e.fn /\ UNCHANGED waited
    [] e.op = "wait"  -> Wait(e.by, e.id) /\ UNCHANGED waited
    [] e.op = "done"  -> Done(e.by, e.id, Range(e.seen)) /\ waited' = waited \cup Below(e.id)
    [] e.op = "poll"  -> Poll(e.by, e.id, e.par, e.complete, Range(e.seen)) /\ UNCHANGED waited
    [] e.op = "round" -> /\ Finish /\ waited \subseteq ended
                         /\ NoTasks /\ waited' = {} /\ UNCHANGED <<workers, who>>
    [] e.op = "fin"   -> UNCHANGED tvars /\ Finish /\ waited \subseteq ended /\ UNCHANGED waited
    [] OTHER -> FALSE
TInit == TaskInit /\ l = 1 /\ waited = {}
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ev(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
