------------------------------ MODULE TypeIds ------------------------------
(* Component type ids across binaries: one number per type, never changed,    *)
(* shared by no other type, whichever binary asks first, and also after        *)
(* binaries are unloaded and loaded again; entities created by one binary are   *)
(* found by the others.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Known(_, _),       \* binary, type: the binary uses the type
          Meta(_)            \* type -> <<names, size, alignment>>; as compilers print it, "" where that is left open
VARIABLES ids,               \* type -> its id, for those that were seen
          mods,              \* binaries that are loaded
          ents               \* sequence of <<type, value>>
tvars == <<ids, mods, ents>>
TIInit == ids = [t \in {} |-> 0] /\ mods = {} /\ ents = <<>>
Extend(f, t, n) == [x \in DOMAIN f \cup {t} |-> IF x = t THEN n ELSE f[x]]
\* n may be the id of t
Fits(f, t, n) == n >= 0 /\ IF t \in DOMAIN f THEN f[t] = n ELSE \A x \in DOMAIN f : f[x] # n
RECURSIVE Learn(_, _)
\* all of the pairs <<type, id>>, or <<>> if they contradict
Learn(f, ps) == IF ps = <<>> THEN <<f>> ELSE IF Fits(f, ps[1][1], ps[1][2]) THEN Learn(Extend(f, ps[1][1], ps[1][2]), Tail(ps)) ELSE <<>>
Covers(m, ps) == \A x \in DOMAIN ps : Known(m, ps[x][1])
Load(m, ps) == /\ m \notin mods /\ mods' = mods \cup {m} /\ Covers(m, ps)
               /\ Learn(ids, ps) # <<>> /\ ids' = Learn(ids, ps)[1] /\ ents' = ents
Unload(m) == m \in mods /\ mods' = mods \ {m} /\ ents' = <<>> /\ ids' = ids
Id(m, t, r) == m \in mods /\ Fits(ids, t, r) /\ ids' = Extend(ids, t, r) /\ UNCHANGED <<mods, ents>>
Describe(m, t, name, size, align) == /\ m \in mods /\ Known(m, t) /\ UNCHANGED tvars
                                     /\ (\E x \in DOMAIN Meta(t)[1] : Meta(t)[1][x] \in {"", name}) /\ size = Meta(t)[2] /\ align = Meta(t)[3]
Make(m, t, v, ok) == m \in mods /\ Known(m, t) /\ ok = 1 /\ ents' = Append(ents, <<t, v>>) /\ UNCHANGED <<ids, mods>>
Values(t) == LET s == SelectSeq(ents, LAMBDA e : e[1] = t) IN [x \in DOMAIN s |-> s[x][2]]
\* in any order
Bag(q) == [v \in {q[x] : x \in DOMAIN q} |-> Cardinality({x \in DOMAIN q : q[x] = v})]
View(m, t, r, n) == m \in mods /\ Known(m, t) /\ n = Len(r) /\ Bag(r) = Bag(Values(t)) /\ UNCHANGED tvars
Injective == \A s, t \in DOMAIN ids : ids[s] = ids[t] => s = t
=============================================================================
