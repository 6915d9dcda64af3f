---------------------------- MODULE MapsTrace ----------------------------
EXTENDS Maps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<maps, l>>
Width(e) == IF "w" \in DOMAIN e THEN e.w ELSE 1
Op(e) ==
  CASE e.op = "new" -> New(e.m, Width(e))
    [] e.op \in {"range", "ilist"} -> FromRange(e.m, e.given, e.rows, Width(e))
    [] e.op = "del" -> Delete(e.m)
    [] e.op = "ins" -> (IF e.how = "assign" THEN Assign(e.m, e.k, e.v, e.r) ELSE Insert(e.m, e.k, e.v, e.r))
    [] e.op = "selfins" -> SelfInsert(e.m, e.k, e.r)
    [] e.op = "alias" -> Alias(e.m, e.k, e.k2, e.r)
    [] e.op = "sub" -> Sub(e.m, e.k, e.r)
    [] e.op = "subw" -> SubWrite(e.m, e.k, e.v)
    [] e.op = "at" -> At(e.m, e.k, e.r)
    [] e.op \in {"find", "cfind"} -> Find(e.m, e.k, e.r)
    [] e.op \in {"findw", "atw"} -> FindWrite(e.m, e.k, e.v, e.r)
    [] e.op = "rest" -> Rest(e.m, e.k, e.r)
    [] e.op = "count" -> Count(e.m, e.k, e.r)
    [] e.op = "probe" -> Probe(e.m, e.ks, e.r)
    [] e.op = "erase" -> Erase(e.m, e.k, e.r)
    [] e.op = "clear" -> Clear(e.m)
    [] e.op = "crowd" -> Crowd(e.m, e.n, e.mod, e.x, e.r)
    [] e.op = "reserve" -> Reserve(e.m)
    [] e.op = "bump" -> Bump(e.m, e.d)
    [] e.op = "dump" -> Dump(e.m, e.rows, e.empty)
    [] e.op \in {"copyc", "copya"} -> Copy(e.m, e.j)
    [] e.op \in {"movec", "movea"} -> MoveTo(e.m, e.j, e.src)
    [] e.op = "swap" -> Swap(e.m, e.j)
    [] OTHER -> FALSE
\* a new script starts with no maps, and nothing is left of those of the last one
Ev(e) == IF e.op = "reset" THEN e.left = 0 /\ maps' = [i \in Regs |-> <<>>]
         ELSE Op(e) /\ Report(e.ns, e.lv, e.lk) /\ e.bad = 0
TInit == HInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ev(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
