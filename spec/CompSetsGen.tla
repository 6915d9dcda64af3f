---------------------------- MODULE CompSetsGen ----------------------------
(* Random behaviours of CompSets.tla as scripts (tlc -simulate); PROFILE is    *)
(* set, b64 or b8 (ids), meta (descriptions) or arch (entities).               *)
EXTENDS CompSets, IOUtils, SequencesExt
Profile == IOEnv.PROFILE
Steps == atoi(IOEnv.STEPS)
VARIABLES i, pool
gvars == <<S, E, i, pool>>
Str(n) == ToString(n)
Pick(X, x) == CHOOSE y \in {RandomElement(X)} : TRUE
W(ps, x) == ps[Pick(DOMAIN ps, x)]
Out(s) == PrintT(<<"L", s>>)
Join(q) == FoldLeft(LAMBDA a, b : a \o " " \o Str(b), "", q)
Types == 0..19
\* ids around the boundaries of words
Ids == (0..9) \cup (14..17) \cup (30..33) \cup (62..66) \cup {100, 126, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 1000, 4095, 4096, 20000}
Pools == <<{0, 1, 63, 64, 65}, {62, 63, 64, 127, 128, 192}, {7, 8, 15, 16, 17}, 0..9, Ids, {5, 1000, 4096}, {31, 32, 33, 63, 64}>>
Fresh(x) == IF Profile = "meta" THEN (IF Pick(1..2, x) = 1 THEN Types ELSE Pick({0..4, {0, 1, 2, 18, 19}, 7..12}, x)) ELSE W(Pools, x)
Combo(n) == CASE n = 0 -> {0, 1} [] n = 1 -> {0, 1} [] n = 2 -> {3, 5, 19} [] n = 3 -> {3, 5, 19} [] n = 4 -> 7..11 [] n = 5 -> 7..11 [] n = 6 -> {18} [] OTHER -> {}
Probe(s) == "has " \o Str(s) \o Join(SetToSeq(IF Profile = "meta" THEN Types ELSE Ids)) \o (IF Profile = "meta" THEN ";list " \o Str(s) ELSE "")
SetStep ==
  \E s \in {Pick(Slots, i)} : \E o \in {Pick(Slots \ {s}, i)} : \E x \in {Pick(pool, i)} :
  \E op \in {W(<<"ins", "ins", "ins", "ins", "era", "era", "era", "has", "eq", "eq", "eq", "copyc", "copya", "movec", "new", "clr", "same">>, i)} :
  \E y \in {IF On(s) /\ C(s) # {} /\ Pick(1..4, i) > 1 THEN Pick(C(s), i) ELSE x} :
  IF ~On(s) \/ op = "new" THEN
     (IF Profile = "meta" /\ Pick(1..2, i) = 1 THEN \E n \in {Pick(0..7, i)} : Out("create " \o Str(s) \o " " \o Str(n)) /\ Create(s, Combo(n))
      ELSE Out("new " \o Str(s) \o " " \o Str(Pick({1, 2, 4, 8}, i))) /\ Create(s, {}))
  ELSE CASE op = "ins" -> Out(W(IF Profile = "meta" THEN <<"ins", "insm">> ELSE <<"ins">>, i) \o " " \o Str(s) \o " " \o Str(x)) /\ Insert(s, x)
         [] op = "era" -> Out(W(IF Profile = "meta" THEN <<"era", "erai">> ELSE <<"era">>, i) \o " " \o Str(s) \o " " \o Str(y)) /\ Erase(s, y)
         [] op = "clr" /\ Profile # "meta" -> Out("clr " \o Str(s)) /\ Clear(s)
         [] op = "eq" -> (IF On(o) THEN Out("eq " \o Str(s) \o " " \o Str(o)) ELSE Out("eq " \o Str(s) \o " " \o Str(s))) /\ Skip
         [] op = "copyc" -> Out("copyc " \o Str(o) \o " " \o Str(s) \o ";eq " \o Str(o) \o " " \o Str(s)) /\ Copy(o, s)
         [] op = "copya" -> (IF On(o) THEN Out("copya " \o Str(o) \o " " \o Str(s) \o ";eq " \o Str(o) \o " " \o Str(s)) /\ Copy(o, s)
                             ELSE Out("copya " \o Str(s) \o " " \o Str(s) \o ";" \o Probe(s)) /\ Skip)
         [] op = "movec" -> Out("movec " \o Str(o) \o " " \o Str(s) \o ";" \o Probe(o)) /\ Move(o, s)
         \* the same members in another way
         [] op = "same" /\ On(o) -> LET q == SetToSeq(C(s) \ C(o)) d == SetToSeq(C(o) \ C(s)) ins == [z \in DOMAIN q |-> "ins " \o Str(o) \o " " \o Str(q[z])] era == [z \in DOMAIN d |-> "era " \o Str(o) \o " " \o Str(d[z])] IN
              Out(FoldLeft(LAMBDA a, b : a \o b \o ";", "", IF Pick(1..2, i) = 1 THEN ins \o era ELSE era \o ins) \o "eq " \o Str(s) \o " " \o Str(o)) /\ Copy(o, s)
         [] OTHER -> Out(Probe(s)) /\ Skip
ECombo(n) == CASE n = 1 -> <<0>> [] n \in {2, 3} -> <<0, 1>> [] n \in 4..6 -> <<0, 2, 4>> [] n = 7 -> <<12>> [] n \in {8, 9} -> <<0, 12>> [] n \in {10, 11} -> <<17, 18, 19>>
               [] n \in {12, 13} -> <<5, 6, 7, 8, 9, 10, 11, 12>> [] n = 14 -> <<0, 19>> [] n \in {15, 16} -> <<1, 3, 8, 14>> [] OTHER -> <<>>
ArchStep ==
  \E n \in {"e" \o Str(i)} : \E op \in {IF Names = {} THEN "create" ELSE W(<<"create", "create", "set", "set", "set", "set", "goi", "remove", "remove", "remove", "clone", "copy", "move", "destroy", "report", "report">>, i)} :
  \E h \in {IF Names = {} THEN "" ELSE Pick(Names, i)} : \E x \in {Pick(pool, i)} :
  \E y \in {IF h # "" /\ E[h].c # {} /\ Pick(1..4, i) > 1 THEN Pick(E[h].c, i) ELSE x} :
  CASE op = "create" -> \E r \in {W(<<0, 0, 0, 1>>, i)} : \E c \in {Pick(0..16, i)} : Out("create " \o n \o " " \o Str(r) \o " " \o Str(c)) /\ Make(n, r, ECombo(c))
    [] op \in {"set", "goi"} -> Out(op \o " " \o h \o " " \o Str(x)) /\ Add(h, x)
    [] op = "remove" -> Out(op \o " " \o h \o " " \o Str(y)) /\ Remove(h, y)
    [] op = "clone" -> Out("clone " \o h \o " " \o n) /\ Duplicate(h, n, E[h].reg)
    [] op = "copy" -> Out("copy " \o h \o " " \o n \o " " \o Str(1 - E[h].reg)) /\ Duplicate(h, n, 1 - E[h].reg)
    [] op = "move" -> Out("move " \o h \o " " \o n \o " " \o Str(1 - E[h].reg)) /\ Transfer(h, n, 1 - E[h].reg)
    [] op = "destroy" -> Out("destroy " \o h) /\ Destroy(h)
    [] OTHER -> Out("report " \o Str(Pick(0..1, i))) /\ Skip
GInit == CInit /\ i = 0 /\ pool = {}
GNext == /\ i < Steps /\ i' = i + 1
         /\ IF i = 0 THEN Out("reset " \o Profile) /\ UNCHANGED cvars /\ pool' \in {IF Profile = "arch" THEN Pick({Types, 0..4, {0, 1, 2, 12, 19}, 10..19}, i) ELSE Fresh(i)}
            ELSE pool' = pool /\ (IF Profile = "arch" THEN ArchStep ELSE SetStep)
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
