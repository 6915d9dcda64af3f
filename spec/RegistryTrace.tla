---------------------------- MODULE RegistryTrace ----------------------------
(* Validates recorded executions of the real registry against Registry.tla.   *)
(* The trace file holds many executions, each starting with a "reset" event.  *)
EXTENDS Registry, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES S, l
vars == <<S, l>>

\* the observable state logged after each event
MatchReg(s, r, o) ==
  /\ o.ents = s.ents[r]
  /\ o.size = Cardinality(Live(s, r))
  /\ LET al == {o.alive[i] : i \in DOMAIN o.alive} IN
       MustBeAlive(s, r) \subseteq al /\ al \subseteq MayBeAlive(s, r)
  \* an archetype lists its components once each, and a component set has one archetype
  /\ \A h \in Live(s, r) :
       LET cs == o.archc[o.arch[h] + 1] IN
       {cs[i] : i \in DOMAIN cs} = CompsOf(s, r, h) /\ Len(cs) = Cardinality(CompsOf(s, r, h))
  /\ Cardinality({o.arch[h] : h \in Live(s, r)}) = Cardinality({CompsOf(s, r, h) : h \in Live(s, r)})

\* LIFE=1: also compare the number of live component objects and their placement
Life == IOEnv.LIFE = "1"
Match(s, st) ==
  /\ \A r \in Regs : MatchReg(s, r, st.regs[r])
  \* no handle was given out twice, counting those of entities the state does not mention any more
  /\ st.reissued = 0
  \* nothing is alive that was never given out
  /\ \A r \in DOMAIN st.regs : st.regs[r].phantoms = 0
  /\ Life => /\ \A c \in Tracked : st.live[c] = LiveObjs(s, c)
             /\ st.anom = 0

HasRet(o) == o.op \in {"goi", "get", "has"} /\ o.res = "ok"

Step(e) ==
  \E o \in Exec(S, e) :
    /\ o.res = e.res
    /\ (HasRet(e) => o.ret = e.ret)
    /\ Match(o.s, e.st)
    /\ Inv(o.s)
    /\ S' = o.s

TInit == S = Init0 /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "reset" THEN Match(Init0, e.st) /\ S' = Init0 ELSE Step(e)
TSpec == TInit /\ [][TNext]_vars

Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
