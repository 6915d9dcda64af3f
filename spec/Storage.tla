------------------------------- MODULE Storage -------------------------------
(* How the registry stores entities: per component set (archetype) a list of  *)
(* fixed-capacity blocks kept packed by swap-and-pop, a map from handle to     *)
(* location, and a LIFO pool of recycled slots.  Structured like the code: one *)
(* action per public call, the helpers named after archetype/chunk/handle_pool.*)
(* TLC explores it exhaustively; every explored transition is printed (EDGES)  *)
(* so that it can be replayed on the real registry.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS MaxIds, MaxGen, Edges

Comps == {"L5", "L7"}
Sets  == SUBSET Comps
\* entities per block: 16 KB / (8 + sizes)
Cap(a) == IF a = {} THEN 2048 ELSE IF a = {"L5"} THEN 3 ELSE IF a = {"L7"} THEN 2 ELSE 1

VARIABLES chunks,   \* archetype -> sequence of blocks, a block is a sequence of handles
          loc,      \* live handle -> <<archetype, block, entry>>
          gens,     \* slot -> generation
          free,     \* recycled slots, last one is used first
          op        \* the last call, as a line of a script (not part of the state)
vars == <<chunks, loc, gens, free>>

Live == DOMAIN loc
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Last(s)      == s[Len(s)]
Front(s)     == SubSeq(s, 1, Len(s) - 1)
Name(h)      == "h" \o ToString(h[1]) \o "x" \o ToString(h[2])

\* ---- handle pool
CanAlloc == free # <<>> \/ Len(gens) < MaxIds
NewHandle == IF free # <<>> THEN <<Last(free), gens[Last(free)]>> ELSE <<Len(gens) + 1, 0>>
Alloc == IF free # <<>> THEN free' = Front(free) /\ gens' = gens ELSE gens' = Append(gens, 0) /\ free' = free

\* ---- archetype: append an entity / vacate an entry
EmplaceIn(cs, a, h) == IF Len(Last(cs)) < Cap(a) THEN [cs EXCEPT ![Len(cs)] = Append(@, h)] ELSE Append(cs, <<h>>)
PlaceOf(cs, a) == IF Len(Last(cs)) < Cap(a) THEN <<Len(cs), Len(Last(cs)) + 1>> ELSE <<Len(cs) + 1, 1>>
\* the last entry of the last block replaces the vacated one; an emptied block goes, unless it is the only one
SwapErase(cs, p) ==
  LET h == Last(Last(cs))
      moved == [cs EXCEPT ![p[2]][p[3]] = h]
      popped == [moved EXCEPT ![Len(cs)] = Front(@)] IN
  IF Last(popped) = <<>> /\ Len(popped) > 1 THEN Front(popped) ELSE popped
Relocate(m, cs, p, h) == \* the location map after h's entry p is vacated (h itself still to be updated)
  LET l == Last(Last(cs)) IN IF l = h THEN m ELSE [m EXCEPT ![l] = p]

Create(a) ==
  /\ CanAlloc
  /\ Alloc
  /\ LET h == NewHandle IN
     /\ loc' = Put(loc, h, <<a>> \o PlaceOf(chunks[a], a))
     /\ chunks' = [chunks EXCEPT ![a] = EmplaceIn(@, a, h)]
     /\ op' = "create 0 " \o Name(h) \o " " \o
              (CASE a = {} -> "-" [] a = {"L5"} -> "L5 10" [] a = {"L7"} -> "L7 20" [] OTHER -> "L5,L7 30 40")
Destroy(h) ==
  /\ gens[h[1]] < MaxGen
  /\ chunks' = [chunks EXCEPT ![loc[h][1]] = SwapErase(@, loc[h])]
  /\ loc' = Drop(Relocate(loc, chunks[loc[h][1]], loc[h], h), h)
  /\ gens' = [gens EXCEPT ![h[1]] = @ + 1]
  /\ free' = Append(free, h[1])
  /\ op' = "destroy " \o Name(h)
Transfer(h, a2) ==
  LET p == loc[h] a == p[1] IN
  /\ chunks' = [chunks EXCEPT ![a2] = EmplaceIn(@, a2, h), ![a] = SwapErase(@, p)]
  /\ loc' = Put(Relocate(loc, chunks[a], p, h), h, <<a2>> \o PlaceOf(chunks[a2], a2))
  /\ UNCHANGED <<gens, free>>
Add(h, c)    == c \notin loc[h][1] /\ Transfer(h, loc[h][1] \cup {c}) /\ op' = "set " \o Name(h) \o " " \o c \o " " \o ToString(50 + h[1])
Remove(h, c) == c \in loc[h][1] /\ Transfer(h, loc[h][1] \ {c}) /\ op' = "remove " \o Name(h) \o " " \o c
Clone(h) ==
  /\ CanAlloc
  /\ Alloc
  /\ LET n == NewHandle a == loc[h][1] IN
     /\ loc' = Put(loc, n, <<a>> \o PlaceOf(chunks[a], a))
     /\ chunks' = [chunks EXCEPT ![a] = EmplaceIn(@, a, n)]
     /\ op' = "clone " \o Name(h) \o " " \o Name(n)

Init == chunks = [a \in Sets |-> <<<<>>>>] /\ loc = [h \in {} |-> 0] /\ gens = <<>> /\ free = <<>> /\ op = ""
Next == \/ \E a \in Sets : Create(a)
        \/ \E h \in Live : Destroy(h) \/ Clone(h) \/ \E c \in Comps : Add(h, c) \/ Remove(h, c)
Spec == Init /\ [][Next]_<<vars, op>>
View == vars
FP(x) == ToString(TLCFP(x)) \o "." \o ToString(TLCFP(<<x, 1>>))
Emit == Edges => PrintT(<<"E", FP(vars), op', FP(vars')>>)

\* ---- what must hold
LocationsRight == \A h \in Live : LET p == loc[h] IN
                    p[2] <= Len(chunks[p[1]]) /\ p[3] <= Len(chunks[p[1]][p[2]]) /\ chunks[p[1]][p[2]][p[3]] = h
Slots == UNION {{<<a, i, j>> : j \in DOMAIN chunks[a][i]} : <<a, i>> \in UNION {{<<b, k>> : k \in DOMAIN chunks[b]} : b \in Sets}}
NothingElse == Cardinality(Slots) = Cardinality(Live)
Packed == \A a \in Sets : /\ Len(chunks[a]) >= 1
                          /\ \A i \in 1..(Len(chunks[a]) - 1) : Len(chunks[a][i]) = Cap(a)
                          /\ Len(chunks[a]) > 1 => Last(chunks[a]) # <<>>
                          /\ Len(Last(chunks[a])) <= Cap(a)
PoolRight == /\ \A h \in Live : gens[h[1]] = h[2]
             /\ \A i, j \in DOMAIN free : free[i] = free[j] => i = j
             /\ {free[i] : i \in DOMAIN free} \cap {h[1] : h \in Live} = {}
             /\ Len(free) + Cardinality(Live) = Len(gens)
\* refinement: each step changes the abstract content (handle -> component set) of one entity only,
\* and never reuses a handle
Content == [h \in Live |-> loc[h][1]]
OneEntity == [][Cardinality({h \in DOMAIN Content \cup DOMAIN Content' :
                   ~(h \in DOMAIN Content /\ h \in DOMAIN Content' /\ Content[h] = Content'[h])}) <= 1]_vars
NeverReused == [][\A h \in Live' \ Live : ~(h[1] <= Len(gens) /\ gens[h[1]] > h[2])]_vars
=============================================================================
