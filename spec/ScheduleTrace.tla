---------------------------- MODULE ScheduleTrace ----------------------------
EXTENDS Schedule, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
VARIABLE l
vars == <<systems, phase, reg, th, running, finished, marks, exec, made, l>>
Range(s) == {s[i] : i \in DOMAIN s}
Ev(e) ==
  CASE e.op = "reset" -> /\ systems' = <<>> /\ phase' = "idle" /\ reg' = 0 /\ th' = 0 /\ running' = {} /\ finished' = {}
                         /\ marks' = [r \in {1, 2} |-> 0] /\ exec' = 0 /\ made' = <<>>
    [] e.op = "sys" -> AddSystem(e.s, e.kind, e.main, e.stage)
    [] e.op = "make" -> Make(e.reg, e.th, e.x, e.ctx)
    [] e.op = "run" -> Run(e.reg, e.th, e.x)
    [] e.op = "begin" -> IF Aspect = "C11" THEN BeginAlone(e.s)
                         ELSE IF Aspect = "C10" THEN BeginOrdered(e.s, e.th, Range(e.seen), e.marks, e.ctx, e.calls)
                         ELSE BeginSys(e.s, e.th, Range(e.seen), e.marks, e.ctx, e.calls)
    [] e.op = "end" -> EndSys(e.s)
    [] e.op \in {"made", "ran"} ->
         IF Aspect = "C11" THEN phase' = "idle" /\ running' = {} /\ UNCHANGED <<systems, reg, th, finished, marks, exec, made>>
         ELSE Leave(IF e.op = "made" THEN "making" ELSE "running", e.marks)
    [] e.op = "fin" -> phase = "idle" /\ UNCHANGED svars
    \* a crash or a hang is not for C11 to judge
    [] OTHER -> Aspect = "C11" /\ UNCHANGED svars
TInit == SInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ev(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
