----------------------------- MODULE AllocTrace -----------------------------
EXTENDS Alloc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<al, l>>
Op(e) ==
  CASE e.op = "new" -> New(e.a, e.kind, e.cap, e.base, e.h)
    [] e.op = "alloc" -> Allocate(e.a, e.size, e.align, e.r)
    [] e.op = "free" -> Free(e.a) /\ e.was = 1
    [] e.op = "reset_arena" -> Reset(e.a)
    [] e.op \in {"movec", "movea"} -> Move(e.a, e.j)
    [] e.op = "other" -> Other(e.a, e.r, e.apart)
    [] OTHER -> FALSE
Ev(e) == IF e.op = "reset" THEN al' = [i \in Slots |-> <<>>] ELSE Op(e) /\ Remaining(e.a, e.rem) /\ e.ok = 1
TInit == AInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ev(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
