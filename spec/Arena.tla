------------------------------- MODULE Arena -------------------------------
(* The stack allocator as it works: an offset, and before each block a header  *)
(* with the distance from the end of the block below.  Checked to implement    *)
(* Alloc.tla for all histories over small buffers; every transition is printed *)
(* to be replayed on the real allocators.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils
CONSTANTS Caps, Bases, Sizes, Aligns, MaxBlocks, H, Edges
VARIABLES cap, base, off, pads, live, op     \* pads: headers of the outstanding blocks, youngest last; live: blocks
vars == <<cap, base, off, pads, live>>
AlignUp(x, a) == IF x % a = 0 THEN x ELSE x + a - (x % a)
Init == cap = -1 /\ base = 0 /\ off = 0 /\ pads = <<>> /\ live = <<>> /\ op = ""
Make == /\ cap = -1 /\ \E c \in Caps, b \in Bases :
             cap' = c /\ base' = b /\ op' = "new 1 " \o (IF H = 0 THEN "lin " ELSE "stk ") \o ToString(c) \o " " \o ToString(b)
        /\ UNCHANGED <<off, pads, live>>
Alloc(s, a) ==
  LET p == AlignUp(base + off + H, a) - base
      left == cap - off - H - (p - off - H) IN
  /\ cap >= 0
  /\ op' = "alloc 1 " \o ToString(s) \o " " \o ToString(a)
  /\ IF cap - off < H \/ left < s THEN UNCHANGED <<off, pads, live>>
     ELSE Len(live) < MaxBlocks /\ off' = p + s /\ pads' = Append(pads, p - off) /\ live' = Append(live, [at |-> p, to |-> p + s])
  /\ UNCHANGED <<cap, base>>
Free == /\ live # <<>> /\ H > 0
        /\ off' = live[Len(live)].at - pads[Len(pads)]
        /\ pads' = SubSeq(pads, 1, Len(pads) - 1) /\ live' = SubSeq(live, 1, Len(live) - 1)
        /\ op' = "free 1" /\ UNCHANGED <<cap, base>>
Reset == cap >= 0 /\ off' = 0 /\ pads' = <<>> /\ live' = <<>> /\ op' = "reset_arena 1" /\ UNCHANGED <<cap, base>>
Next == Make \/ (\E s \in Sizes, a \in Aligns : Alloc(s, a)) \/ Free \/ Reset
Spec == Init /\ [][Next]_<<vars, op>>
View == vars
FP(x) == ToString(TLCFP(x)) \o "." \o ToString(TLCFP(<<x, 1>>))
Emit == Edges => PrintT(<<"E", FP(vars), op', FP(vars')>>)
\* the implementation relation
Kind == IF H = 0 THEN "lin" ELSE "stk"
al == IF cap = -1 THEN <<>> ELSE <<[kind |-> Kind, cap |-> cap, base |-> base, h |-> H, blocks |-> live]>>
Top == IF live = <<>> THEN 0 ELSE live[Len(live)].to
OffIsTop == off = Top
Abs == INSTANCE Alloc WITH al <- [i \in 1..3 |-> IF i = 1 THEN al ELSE <<>>]
AbsNext == \/ \E c \in Caps, b \in Bases : Abs!New(1, Kind, c, b, H)
           \/ \E s \in Sizes, a \in Aligns : \E r \in -1..cap : Abs!Allocate(1, s, a, r)
           \/ Abs!Free(1) \/ Abs!Reset(1)
Refines == [][AbsNext \/ UNCHANGED vars]_vars
InBounds == Abs!InBounds
Disjoint == Abs!Disjoint
=============================================================================
