--------------------------- MODULE HandlePoolTrace ---------------------------
EXTENDS HandlePool, Json, IOUtils, Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<given, alive, open, filled, l>>
Range(s) == {s[i] : i \in DOMAIN s}
Ev(e) ==
  CASE e.op = "reset" -> given' = {} /\ alive' = {} /\ open' = {} /\ filled' = {}
    [] e.op = "create" -> Create(e.h)
    [] e.op = "reserve" -> Reserve(e.h)
    [] e.op = "sync" -> Sync
    [] e.op = "fill" -> Fill(e.h)
    [] e.op = "destroy" -> Destroy(e.h)
    [] e.op = "state" -> Report(Range(e.alive), e.size) /\ UNCHANGED hvars
    \* the pool itself
    [] e.op = "aged" -> /\ Cardinality(Range(e.hs)) = e.count /\ given' = Range(e.hs) /\ given = {} /\ UNCHANGED <<alive, open, filled>>
    [] e.op = "recycle" -> IF e.h \in filled THEN e.was /\ Destroy(e.h) ELSE e.h \notin open /\ ~e.was /\ UNCHANGED hvars
    [] e.op = "alive" -> alive \subseteq Range(e.alive) /\ Range(e.alive) \subseteq alive \cup open /\ e.odd = 0 /\ UNCHANGED hvars
    [] e.op = "fin" -> UNCHANGED hvars
    [] OTHER -> FALSE
TInit == HInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ev(Trace[l]) /\ HInv'
TSpec == TInit /\ [][TNext]_vars
Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
