----------------------------- MODULE TypeIdsGen -----------------------------
(* Random behaviours of TypeIds.tla as scripts: one process each.              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Conf == JsonDeserialize(IOEnv.CONFIG)
Steps == atoi(IOEnv.STEPS)
KnownTo(m) == {Conf.known[m + 1][x] : x \in DOMAIN Conf.known[m + 1]}
Sights(m) == KnownTo(m) \cap {Conf.views[x] : x \in DOMAIN Conf.views}
Libs == {Conf.libs[x] : x \in DOMAIN Conf.libs}
VARIABLES mods, i, ents
gvars == <<mods, i, ents>>
Str(n) == ToString(n)
Pick(S, x) == CHOOSE y \in {RandomElement(S)} : TRUE
W(ps, x) == ps[Pick(DOMAIN ps, x)]
Out(s) == PrintT(<<"L", s>>)
Loaded == mods \cap Libs
Step == \E m \in {Pick(mods, i)} : \E op \in {W(<<"load", "load", "unload", "id", "id", "id", "meta", "make", "make", "view", "view">>, i)} :
        \E t \in {Pick(KnownTo(m), i)} : \E v \in {Pick(Sights(m), i)} :
  CASE op = "load" /\ Libs \ mods # {} -> \E x \in {Pick(Libs \ mods, i)} : Out("load " \o Str(x) \o " " \o W(<<"g", "l">>, i)) /\ mods' = mods \cup {x} /\ ents' = ents
    [] op = "unload" /\ Loaded # {} -> \E x \in {Pick(Loaded, i)} : Out("unload " \o Str(x)) /\ mods' = mods \ {x} /\ ents' = 0
    [] op = "meta" -> Out("meta " \o Str(m) \o " " \o Str(t)) /\ UNCHANGED <<mods, ents>>
    [] op = "make" -> Out("make " \o Str(m) \o " " \o Str(v) \o " " \o Str(Pick(0..100, i))) /\ mods' = mods /\ ents' = ents + 1
    [] op = "view" -> Out("view " \o Str(m) \o " " \o Str(v)) /\ UNCHANGED <<mods, ents>>
    [] OTHER -> Out("id " \o Str(m) \o " " \o Str(t)) /\ UNCHANGED <<mods, ents>>
GInit == mods = {} /\ i = 0 /\ ents = 0
GNext == i < Steps /\ i' = i + 1 /\ (IF i = 0 THEN Out("reset") /\ mods' = (IF Conf.engine = 1 THEN {0, 6} ELSE {0}) /\ ents' = 0 ELSE Step)
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
