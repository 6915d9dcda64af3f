--------------------------- MODULE CompSetsTrace ---------------------------
EXTENDS CompSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<S, E, l>>
Op(e) ==
  CASE e.op = "new" -> Create(e.s, {})
    [] e.op = "create" /\ "h" \in DOMAIN e -> Make(e.h, e.reg, e.c)
    [] e.op = "create" -> Create(e.s, ToSet(e.c))
    [] e.op \in {"ins", "insm"} -> Insert(e.s, e.x)
    [] e.op \in {"era", "erai"} -> Erase(e.s, e.x)
    [] e.op = "clr" -> Clear(e.s)
    [] e.op = "has" -> Has(e.s, e.q, e.r)
    [] e.op = "list" -> List(e.s, e.r, e.n)
    [] e.op \in {"copyc", "copya"} -> Copy(e.s, e.j)
    [] e.op = "movec" -> Move(e.s, e.j)
    [] e.op = "eq" -> Equal(e.s, e.j, e.r)
    [] e.op \in {"set", "goi"} -> Add(e.h, e.x)
    [] e.op = "remove" -> Remove(e.h, e.x)
    [] e.op \in {"clone", "copy"} -> Duplicate(e.h, e.n, e.reg)
    [] e.op = "move" -> Transfer(e.h, e.n, e.reg)
    [] e.op = "destroy" -> Destroy(e.h)
    [] e.op = "report" -> Report(e.e)
    [] OTHER -> FALSE
Ev(e) == IF e.op = "reset" THEN S' = [i \in Slots |-> <<>>] /\ E' = [h \in {} |-> 0] ELSE Op(e)
TInit == CInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ev(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
