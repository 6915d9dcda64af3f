------------------------------ MODULE AllocGen ------------------------------
(* Random behaviours of Alloc.tla as scripts (tlc -simulate).                  *)
EXTENDS Alloc, IOUtils, SequencesExt
Steps == atoi(IOEnv.STEPS)
VARIABLES i, mood
gvars == <<al, i, mood>>
Str(n) == ToString(n)
Pick(S, x) == CHOOSE y \in {RandomElement(S)} : TRUE
W(ps, x) == ps[Pick(DOMAIN ps, x)]
Out(s) == PrintT(<<"L", s>>)
Caps == <<0, 1, 2, 3, 7, 8, 16, 17, 31, 64, 64, 100, 255, 256, 257, 300, 1000, 1024, 4096>>
TmpCap == 16777216
Sizes == <<0, 1, 1, 2, 3, 4, 5, 7, 8, 8, 9, 12, 16, 16, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 500, 1000>>
TSize == <<1, 2, 4, 8, 16, 24, 64, 128, 3>>
TAlign == <<1, 2, 4, 8, 16, 8, 64, 128, 1>>
H(a) == IF a.kind = "lin" THEN 0 ELSE 1
Left(a) == a.cap - Top(a) - H(a)
\* to the edge of the buffer and just past it
Size(a, align, x) == IF a.kind = "lin" \/ Pick(1..3, x) > 1 THEN W(Sizes, x)
                     ELSE LET n == a.cap - Least(a, align) + Pick(-2..2, x) IN IF n < 0 THEN 0 ELSE n
GInit == AInit /\ i = 0 /\ mood = "up"
GAlloc(m, align, size) == \* the likely outcome
  IF Fits(A(m), size, align) THEN Allocate(m, size, align, Least(A(m), align)) ELSE al' = al
Step ==
  \E m \in {Pick(Slots, i)} : \E o \in {Pick(Slots \ {m}, i)} : \E op \in {W(IF mood = "up" THEN <<"alloc","alloc","alloc","alloc","alloc","free","huge","moves">> ELSE <<"free","free","free","alloc","free","reset_arena","moves","other">>, i)} :
  /\ mood' = IF Pick(1..8, i) = 1 THEN W(<<"up", "down">>, i) ELSE mood
  /\ CASE ~On(m) \/ (A(m).kind # "tmp" /\ Pick(1..25, i) = 1) ->
            \E kind \in {IF m = 3 THEN "tmp" ELSE W(<<"lin", "stk", "stk">>, i)} : \E cap \in {W(Caps, i)} : \E base \in {Pick(0..(IF Pick(1..2, i) = 1 THEN 16 ELSE 600), i)} :
            Out("new " \o Str(m) \o " " \o kind \o " " \o Str(cap) \o " " \o Str(base)) /\ New(m, kind, IF kind = "tmp" THEN TmpCap ELSE cap, IF kind = "tmp" THEN 16 ELSE base, IF kind = "lin" THEN 0 ELSE 1)
       [] op \in {"alloc", "huge"} /\ A(m).kind = "tmp" ->
            \E t \in {Pick(1..9, i)} : \E n \in {IF Pick(1..4, i) = 1 /\ Least(A(m), TAlign[t]) < TmpCap
                                                 THEN (TmpCap - Least(A(m), TAlign[t])) \div TSize[t] + Pick(-1..1, i) ELSE Pick(0..200, i)} :
            IF op = "huge" THEN Out("alloc " \o Str(m) \o " " \o Str(t - 1) \o " h" \o Str(Pick(0..12, i))) /\ al' = al
            ELSE Out("alloc " \o Str(m) \o " " \o Str(t - 1) \o " " \o Str(IF n < 0 THEN 0 ELSE n)) /\ GAlloc(m, TAlign[t], (IF n < 0 THEN 0 ELSE n) * TSize[t])
       [] op \in {"alloc", "huge"} ->
            \E align \in {W(IF A(m).kind = "lin" THEN <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>> ELSE <<1, 2, 4, 8, 16, 32, 64, 128>>, i)} : \E size \in {Size(A(m), align, i)} :
            IF op = "huge" THEN Out("alloc " \o Str(m) \o " h" \o Str(Pick(0..300, i)) \o " " \o Str(align)) /\ al' = al
            ELSE Out("alloc " \o Str(m) \o " " \o Str(size) \o " " \o Str(align)) /\ GAlloc(m, align, size)
       [] op = "free" /\ A(m).kind # "lin" -> Out("free " \o Str(m)) /\ (IF Blocks(m) = <<>> THEN al' = al ELSE Free(m))
       [] op = "moves" /\ A(m).kind # "tmp" /\ o # 3 ->
            IF On(o) /\ A(o).kind = A(m).kind /\ Pick(1..3, i) > 1 THEN Out("movea " \o Str(o) \o " " \o Str(m)) /\ Move(o, m)
            ELSE Out("movec " \o Str(o) \o " " \o Str(m)) /\ Move(o, m)
       [] op = "other" /\ A(m).kind = "tmp" -> Out("other " \o Str(m)) /\ al' = al
       [] A(m).kind # "tmp" /\ op \in {"free", "reset_arena"} -> Out("reset_arena " \o Str(m)) /\ Reset(m)
       [] OTHER -> UNCHANGED al
GNext == i < Steps /\ i' = i + 1 /\ (IF i = 0 THEN Out("reset") /\ UNCHANGED <<al, mood>> ELSE Step)
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
