-------------------------- MODULE ParallelForTrace --------------------------
EXTENDS ParallelFor, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<loops, l>>
Ev(e) ==
  CASE e.op = "reset" -> loops' = <<>>
    [] e.op = "loop" -> Begin(e.id, e.n)
    [] e.op = "call" -> Call(e.id, e.i)
    [] e.op = "ret" -> Return(e.id, e.seen)
    [] e.op = "fin" -> AllReturned /\ UNCHANGED loops
    [] OTHER -> FALSE
TInit == PInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ev(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
