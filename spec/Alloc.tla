------------------------------- MODULE Alloc -------------------------------
(* The linear, the stack and the temporary allocator as their users know them: *)
(* blocks of a buffer, handed out upwards.  Addresses are offsets from the     *)
(* start of the buffer, whose own address matters for alignment only.  h bytes *)
(* before each block belong to the allocator.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slots == 1..3
VARIABLE al      \* slot -> <<>> or <<allocator>>
Up(x, a) == ((x + a - 1) \div a) * a
On(i) == al[i] # <<>>
A(i) == al[i][1]
Blocks(i) == A(i).blocks
\* the first byte that was never given to a block
Top(a) == IF a.blocks = <<>> THEN 0 ELSE a.blocks[Len(a.blocks)].to
Least(a, align) == Up(a.base + Top(a) + a.h, align) - a.base
Fits(a, size, align) == Top(a) + a.h <= a.cap /\ Least(a, align) + size <= a.cap
AInit == al = [i \in Slots |-> <<>>]
Set(i, a) == al' = [al EXCEPT ![i] = <<a>>]
New(i, kind, cap, base, h) ==
  /\ h >= 0 /\ (kind = "lin" => h = 0)
  /\ Set(i, [kind |-> kind, cap |-> cap, base |-> base, h |-> h, blocks |-> <<>>])
\* size -1: more bytes than any buffer has; r -1: refused
Allocate(i, size, align, r) ==
  /\ On(i)
  /\ IF r = -1 THEN (size = -1 \/ ~Fits(A(i), size, align)) /\ al' = al
     ELSE /\ size # -1 /\ r >= Top(A(i)) + A(i).h /\ (A(i).base + r) % align = 0 /\ r + size <= A(i).cap
          /\ Set(i, [A(i) EXCEPT !.blocks = Append(@, [at |-> r, to |-> r + size])])
\* the youngest block is released
Free(i) == On(i) /\ Blocks(i) # <<>> /\ A(i).kind # "lin" /\ Set(i, [A(i) EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1)])
Reset(i) == On(i) /\ Set(i, [A(i) EXCEPT !.blocks = <<>>])
\* the blocks follow the allocator; the other one is gone
Move(i, j) == On(j) /\ i # j /\ al' = [al EXCEPT ![i] = al[j], ![j] = <<>>]
\* what is free, as the stack allocator reports it
Remaining(i, rem) == rem = IF al'[i][1].kind = "stk" THEN al'[i][1].cap - Top(al'[i][1]) ELSE -1
\* a temporary allocator of another thread offers the same room, elsewhere
Other(i, r, apart) == On(i) /\ al' = al /\ r = A(i).cap /\ apart = 1

InBounds == \A i \in Slots : On(i) => \A b \in {Blocks(i)[x] : x \in DOMAIN Blocks(i)} : 0 <= b.at /\ b.at <= b.to /\ b.to <= A(i).cap
Disjoint == \A i \in Slots : On(i) => \A x, y \in DOMAIN Blocks(i) : x < y => Blocks(i)[x].to + A(i).h <= Blocks(i)[y].at
=============================================================================
