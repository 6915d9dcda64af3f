------------------------------ MODULE MapsGen ------------------------------
(* Random behaviours of Maps.tla as scripts for the real maps (tlc -simulate): *)
(* PROFILE "hash" or "sparse".  Each behaviour keeps to one kind of map, one   *)
(* range of keys and a changing mood (growing, shrinking, mixed, copying).     *)
EXTENDS Maps, IOUtils, SequencesExt
Profile == IOEnv.PROFILE
Steps == atoi(IOEnv.STEPS)
VARIABLES kind, space, hm, mood, i
gvars == <<maps, kind, space, hm, mood, i>>
Str(n) == ToString(n)
Pick(S, x) == CHOOSE y \in {RandomElement(S)} : TRUE
W(ps, x) == ps[Pick(DOMAIN ps, x)]
Hash == Profile = "hash"
MoveOnly == kind \in {"m", "h"}
\* keys: of a small or large range, or at the ends of the key type
Space(x) == IF Hash THEN W(<<6, 12, 12, 30, 30, 80, 300>>, x)
            ELSE CASE kind \in {"b", "B"} -> W(<<5, 12, 40, 256, 256>>, x) [] OTHER -> W(<<5, 12, 40, 300>>, x)
Extremes == CASE kind \in {"b", "B"} -> {0, 127, 128, 254, 255} [] kind = "h" -> {0, 255, 256, 32767, 32768, 65534, 65535} [] kind = "u" -> {0, 255, 256, 65535, 65536, 100000} [] OTHER -> {0, 1, 65536, 200001}
Key(x) == IF ~Hash /\ Pick(1..8, x) = 1 THEN Pick(Extremes, x) ELSE Pick(0..(space - 1), x)
\* mostly keys that are there
Have(m, x) == IF On(m) /\ Keys(m) # {} /\ Pick(1..10, x) <= 7 THEN Pick(Keys(m), x) ELSE Key(x)
Val(x) == Pick(1..9999, x)
Hows == IF ~Hash THEN (IF MoveOnly THEN <<"emplace", "pw">> ELSE <<"emplace", "pw", "insert">>)
        ELSE IF MoveOnly THEN <<"emplace", "pw">> ELSE <<"emplace", "pw", "insert", "emplacec", "assign", "assign", "hintc", "hintr">>
EHows == IF Hash THEN <<"c", "c", "l", "r", "it", "cit", "own">> ELSE <<"c", "c", "own">>
Buckets == <<0, 0, 2, 4, 8, 16, 64, 128>>
Widths == <<1, 1, 1, 1, 2, 3, 7>>
NewLine(m) == IF Hash THEN "new " \o Str(m) \o " " \o Str(W(Buckets, m)) \o " " \o Str(hm) \o " " \o Str(W(Widths, m)) ELSE "new " \o Str(m)
Some(x) == Pick({m \in Regs : On(m)}, x)
Rank(m) == Cardinality(Keys(m))
Puts(m, ps) == maps' = [maps EXCEPT ![m] = <<FoldLeft(LAMBDA f, p : IF p[1] \in DOMAIN f THEN f ELSE Put(f, p[1], p[2]), M(m), ps), 1>>]
InsLine(m, how, k, v) == "ins " \o Str(m) \o " " \o how \o " " \o Str(k) \o " " \o Str(v)
EraLine(m, k, x) == "erase " \o Str(m) \o " " \o W(EHows, x) \o " " \o Str(k)
Lines(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ";" \o b, "", q)
Out(s) == PrintT(<<"L", s>>)

Moods == <<"grow", "grow", "kill", "kill", "mix", "mix", "mix", "copy">>
GInit == /\ HInit /\ i = 0 /\ kind = "" /\ space = 0 /\ hm = 0 /\ mood = "grow"
Start ==
  /\ kind' \in {W(IF Hash THEN <<"u", "s", "t", "t", "m">> ELSE <<"b", "B", "B", "h", "u", "l">>, i)}
  /\ hm' \in {IF Pick(1..3, i) = 1 THEN 5 ELSE Pick(0..9, i)}
  /\ mood' = W(Moods, i) /\ space' = space /\ maps' = maps
  /\ Out("reset " \o kind')
First == space' \in {Space(i)} /\ UNCHANGED <<kind, hm, mood>> /\ Out(NewLine(1)) /\ maps' = [maps EXCEPT ![1] = <<Empty, 1>>]
Ops == CASE mood = "grow" -> <<"burst", "ins", "ins", "ins", "ins", "sub", "subw", "find", "probe", "erase", "alias", "selfins">>
         [] mood = "kill" -> <<"erase", "erase", "erase", "erase", "erase", "eburst", "find", "dump", "ins", "probe">>
         [] mood = "copy" -> <<"copyc", "copya", "movec", "movea", "movea", "swap", "ilist", "range", "new", "del", "ins", "erase", "dump", "self", "probe", "clear">>
         [] OTHER -> <<"ins", "ins", "sub", "subw", "at", "find", "cfind", "findw", "rest", "count", "probe", "erase", "erase", "erase", "clear", "reserve", "reserve", "bump", "dump", "dump",
                       "copyc", "copya", "movec", "movea", "swap", "alias", "selfins", "new", "atw", "burst">>
Bulk(n, x) == TLCEval([j \in 1..n |-> <<(Pick(0..(space - 1), x * 7 + j)), Val(x * 7 + j)>>])
Fix(op0, m, o) ==
  LET on == {x \in Regs : On(x)}
      op1 == IF MoveOnly /\ op0 \in {"copyc", "copya", "ilist", "range", "alias", "selfins", "self"} THEN "movec" ELSE op0 IN
  CASE ~Hash /\ op1 = "range" -> "ilist" [] Hash /\ op1 = "atw" -> "findw"
    [] op1 = "movec" /\ o \in on /\ Cardinality(on) = 1 -> "ins"
    [] op1 = "del" /\ Cardinality(on) = 1 -> "ins"
    [] OTHER -> op1
Size(op, m) == CASE op = "burst" -> Pick(3..(IF space < 40 THEN 6 ELSE 40), i) [] op = "range" -> Pick(0..30, i) [] op = "ilist" -> Pick(0..3, i)
                 [] op = "eburst" -> (IF Rank(m) = 0 THEN 0 ELSE Pick(1..Rank(m), i)) [] OTHER -> 0
\* every draw is bound once
Step ==
  \E m \in {Some(i)} : \E j \in {Some(i + 1)} : \E o \in {Pick(Regs \ {m}, i)} : \E op \in {IF Pick(1..100, i) = 1 THEN "crowd" ELSE Fix(W(Ops, i), m, o)} :
  \E k \in {Key(i)} : \E h \in {Have(m, i)} : \E v \in {Val(i)} : \E how \in {W(Hows, i)} : \E n \in {Size(op, m)} : \E b \in {Bulk(n, i)} :
  LET s == Str(m) IN
  /\ UNCHANGED <<kind, space, hm>>
  /\ mood' = IF Pick(1..15, i) = 1 THEN W(Moods, i) ELSE mood
  /\ CASE op = "ins" -> \E kk \in {IF Pick(1..4, i) = 1 THEN h ELSE k} :
            Out(InsLine(m, how, kk, v)) /\ (IF how = "assign" THEN maps' = [maps EXCEPT ![m] = <<Put(M(m), kk, v), 1>>] ELSE Puts(m, <<<<kk, v>>>>))
       [] op = "burst" -> LET ho == IF MoveOnly THEN "emplace" ELSE "insert" IN Puts(m, b) /\ Out(Lines([x \in DOMAIN b |-> InsLine(m, ho, b[x][1], b[x][2])]))
       [] op = "eburst" -> LET q == SetToSeq(Keys(m)) IN
            /\ maps' = [maps EXCEPT ![m] = <<[x \in Keys(m) \ {q[y] : y \in 1..n} |-> M(m)[x]], 1>>]
            /\ Out(Lines([y \in 1..n |-> EraLine(m, q[y], i * 50 + y)] \o <<"dump " \o s \o " 0">>))
       [] op = "sub" -> Out("sub " \o s \o " " \o Str(k)) /\ Puts(m, <<<<k, 0>>>>)
       [] op = "subw" -> Out("subw " \o s \o " " \o Str(h) \o " " \o Str(v)) /\ maps' = [maps EXCEPT ![m] = <<Put(M(m), h, v), 1>>]
       [] op \in {"at", "find", "cfind", "rest", "count"} -> Out(op \o " " \o s \o " " \o Str(h)) /\ maps' = maps
       [] op \in {"findw", "atw"} -> Out(op \o " " \o s \o " " \o Str(h) \o " " \o Str(v)) /\ maps' = (IF h \in Keys(m) THEN [maps EXCEPT ![m] = <<Put(M(m), h, v), 1>>] ELSE maps)
       [] op = "probe" -> Out("probe " \o s \o " " \o Str(IF space > 250 THEN 250 ELSE space)) /\ maps' = maps
       [] op = "erase" -> Out(EraLine(m, h, i)) /\ maps' = [maps EXCEPT ![m] = <<Drop(M(m), h), 1>>]
       [] op = "clear" -> Out("clear " \o s) /\ maps' = [maps EXCEPT ![m] = <<Empty, 1>>]
       \* many keys: with hashes that collide, fewer
       [] op = "crowd" -> \E f \in {IF Hash THEN W(<<0, 0, 5, 5, 4, 1, 7>>, i) ELSE 0} : \E c \in {Pick({3, 50, 127, 200, 300, 400}, i)} : \E big \in {Pick(1..8, i)} :
            LET N == IF (Hash => f = 5 /\ kind = "u") /\ big = 1 THEN 70000 ELSE c IN
            Out("crowd " \o s \o " " \o Str(IF kind \in {"b", "B"} THEN (IF N > 256 THEN 256 ELSE N) ELSE IF kind = "h" /\ N > 65536 THEN 65536 ELSE N) \o " " \o Str(IF N > 1000 \/ kind \in {"b", "B"} THEN 1 ELSE W(<<1, 1, 3, 16, 64>>, i))
                \o " " \o Str(W(<<1, 2, 3, 7, 100>>, i + 1)) \o " " \o Str(Pick(0..1, i)) \o " " \o Str(f)) /\ maps' = maps
       [] op = "reserve" -> Out("reserve " \o s \o " " \o Str(Pick({0, 1, 2, 3, 7, 8, 13, 14, 16, 33, 100, 200, Rank(m), Rank(m) + 1}, i))) /\ maps' = maps
       [] op = "bump" -> \E d \in {Pick(1..5, i)} : Out("bump " \o s \o " " \o Str(d)) /\ maps' = [maps EXCEPT ![m] = <<[x \in Keys(m) |-> M(m)[x] + d], 1>>]
       [] op = "dump" -> Out("dump " \o s \o " " \o Str(Pick(0..4, i))) /\ maps' = maps
       [] op = "alias" -> Out("alias " \o s \o " " \o Str(h) \o " " \o Str(k)) /\ (IF h \in Keys(m) THEN Puts(m, <<<<k, M(m)[h]>>>>) ELSE maps' = maps)
       [] op = "selfins" -> Out("selfins " \o s \o " " \o W(IF Hash THEN <<"assign", "emplace", "insert">> ELSE <<"insert">>, i) \o " " \o Str(h)) /\ maps' = maps
       [] op = "new" -> Out(NewLine(o)) /\ maps' = [maps EXCEPT ![o] = <<Empty, 1>>]
       [] op = "del" -> Out("del " \o s) /\ maps' = [maps EXCEPT ![m] = <<>>]
       [] op \in {"range", "ilist"} ->
            Out(op \o " " \o s \o " " \o Str(hm) \o (IF Hash THEN " " \o Str(W(Widths, i)) ELSE "") \o FoldLeft(LAMBDA a, p : a \o " " \o Str(p[1]) \o " " \o Str(p[2]), "", b))
            /\ maps' = [maps EXCEPT ![m] = <<FoldLeft(LAMBDA f, p : IF p[1] \in DOMAIN f THEN f ELSE Put(f, p[1], p[2]), Empty, b), 1>>]
       [] op = "self" -> Out("copya " \o s \o " " \o s \o ";dump " \o s \o " 1") /\ maps' = maps
       [] op = "copyc" -> Out("copyc " \o Str(o) \o " " \o s \o ";dump " \o Str(o) \o " 0") /\ maps' = [maps EXCEPT ![o] = maps[m]]
       [] op = "copya" -> Out("copya " \o Str(j) \o " " \o s \o ";dump " \o Str(j) \o " 0") /\ maps' = [maps EXCEPT ![j] = maps[m]]
       [] op = "movec" -> Out("movec " \o Str(o) \o " " \o s \o ";dump " \o Str(o) \o " 0") /\ maps' = [maps EXCEPT ![o] = maps[m], ![m] = <<Empty, 1>>]
       [] op = "movea" -> IF j = m THEN Out("dump " \o s \o " 2") /\ maps' = maps
                          ELSE Out("movea " \o Str(j) \o " " \o s \o ";dump " \o Str(j) \o " 0") /\ maps' = [maps EXCEPT ![j] = maps[m], ![m] = <<Empty, 1>>]
       [] op = "swap" -> Out("swap " \o Str(j) \o " " \o s \o ";dump " \o Str(j) \o " 0;dump " \o s \o " 0") /\ maps' = [maps EXCEPT ![j] = maps[m], ![m] = maps[j]]
       [] OTHER -> Out("dump " \o s \o " 0") /\ maps' = maps
GNext == i < Steps /\ i' = i + 1 /\ (IF i = 0 THEN Start ELSE IF i = 1 THEN First ELSE Step)
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
