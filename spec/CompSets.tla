----------------------------- MODULE CompSets -----------------------------
(* Sets of component ids, sets of component descriptions, and the archetypes  *)
(* of entities, as their users know them: mathematical sets.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slots == 1..4
VARIABLES S,      \* slot -> <<>> or <<set>>
          E       \* name of an entity -> [reg, c]: registry and set of component types
cvars == <<S, E>>
On(i) == S[i] # <<>>
C(i) == S[i][1]
ToSet(q) == {q[x] : x \in DOMAIN q}
B(b) == IF b THEN 1 ELSE 0
Put(i, s) == S' = [S EXCEPT ![i] = <<s>>] /\ E' = E
CInit == S = [i \in Slots |-> <<>>] /\ E = [h \in {} |-> 0]
Skip == UNCHANGED cvars
Create(i, s) == Put(i, s)
Insert(i, x) == On(i) /\ Put(i, C(i) \cup {x})
Erase(i, x) == On(i) /\ Put(i, C(i) \ {x})
Clear(i) == On(i) /\ Put(i, {})
Has(i, q, r) == On(i) /\ Skip /\ r = [x \in DOMAIN q |-> B(q[x] \in C(i))]
\* each member once
List(i, r, n) == On(i) /\ Skip /\ n = Cardinality(C(i)) /\ Len(r) = n /\ ToSet(r) = C(i)
Copy(i, j) == On(j) /\ Put(i, C(j))
Move(i, j) == On(j) /\ i # j /\ S' = [S EXCEPT ![i] = S[j], ![j] = <<>>] /\ E' = E
\* equal exactly when the members are the same, and then the hashes are equal
Equal(i, j, r) == On(i) /\ On(j) /\ Skip /\ IF C(i) = C(j) THEN r = <<1, 1, 0, 1>> ELSE SubSeq(r, 1, 3) = <<0, 0, 1>>

\* entities: adding a component that is there, or removing one that is not, changes nothing
Names == DOMAIN E
With(h, v) == E' = [x \in Names \cup {h} |-> IF x = h THEN v ELSE E[x]] /\ S' = S
Make(h, reg, c) == Cardinality(ToSet(c)) = Len(c) /\ With(h, [reg |-> reg, c |-> ToSet(c)])
Add(h, x) == h \in Names /\ With(h, [E[h] EXCEPT !.c = @ \cup {x}])
Remove(h, x) == h \in Names /\ With(h, [E[h] EXCEPT !.c = @ \ {x}])
Duplicate(h, n, reg) == h \in Names /\ With(n, [reg |-> reg, c |-> E[h].c])
Transfer(h, n, reg) == h \in Names /\ S' = S /\ E' = [x \in (Names \ {h}) \cup {n} |-> IF x = n THEN [reg |-> reg, c |-> E[h].c] ELSE E[x]]
Destroy(h) == h \in Names /\ S' = S /\ E' = [x \in Names \ {h} |-> E[x]]
\* what the archetype of every entity says; a is its identity
Report(es) ==
  /\ Skip
  /\ Len(es) = Cardinality(Names) /\ {es[x].h : x \in DOMAIN es} = Names
  /\ \A x \in DOMAIN es : LET c == E[es[x].h].c IN
       /\ ToSet(es[x].l) = c /\ Len(es[x].l) = Cardinality(c) /\ es[x].n = Cardinality(c)
       /\ ToSet(es[x].c) = c
  /\ \A x, y \in DOMAIN es : es[x].a = es[y].a <=> E[es[x].h] = E[es[y].h]
=============================================================================
