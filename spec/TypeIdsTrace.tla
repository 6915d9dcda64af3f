---------------------------- MODULE TypeIdsTrace ----------------------------
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* which binary knows which types, and what the types are
Conf == JsonDeserialize(IOEnv.CONFIG)
Knows(m, t) == \E x \in DOMAIN Conf.known[m + 1] : Conf.known[m + 1][x] = t
Describes(t) == IF t >= 100 THEN <<<<"many<" \o ToString(t) \o ">">>, 4, 4>> ELSE Conf.meta[t + 1]
VARIABLES ids, mods, ents, l
vars == <<ids, mods, ents, l>>
T == INSTANCE TypeIds WITH Known <- Knows, Meta <- Describes
Op(e) ==
  CASE e.op = "load" -> T!Load(e.m, e.e)
    [] e.op = "unload" -> T!Unload(e.m)
    [] e.op = "id" -> T!Id(e.m, e.t, e.r)
    [] e.op = "meta" -> T!Describe(e.m, e.t, e.name, e.size, e.align)
    [] e.op = "make" -> T!Make(e.m, e.t, e.v, e.ok)
    [] e.op = "view" -> T!View(e.m, e.t, e.r, e.n)
    [] OTHER -> FALSE
\* a new process: the executable, and the engine library it is linked to, are there
Fresh(e) == LET f == T!Learn([t \in {} |-> 0], e.e \o e.e6) IN
            /\ f # <<>> /\ ids' = f[1] /\ ents' = <<>>
            /\ mods' = IF Conf.engine = 1 THEN {0, 6} ELSE {0}
Ev(e) == IF e.op = "reset" THEN Fresh(e) ELSE Op(e)
TInit == T!TIInit /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ev(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
