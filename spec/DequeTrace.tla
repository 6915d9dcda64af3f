----------------------------- MODULE DequeTrace -----------------------------
(* Recorded histories of the real queue checked against Deque.tla.            *)
EXTENDS Deque, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<q, pend, weak, pushed, taken, l>>

TInit == DInit /\ weak = FALSE /\ l = 1
Ev(e) ==
  CASE e.op = "reset" -> /\ q' = <<>> /\ pend' = [t \in Threads |-> None] /\ weak' = e.weak /\ pushed' = {} /\ taken' = {}
    [] e.op = "inv" -> Invoke(e.t, e.k, e.v)
       \* the element arrives with what its producer wrote before pushing it
    [] e.op = "ret" -> Return(e.t, e.v) /\ (e.v > 0 => e.pay = 10 * e.v + 1)
    [] e.op = "size" -> Quiet /\ e.n = Len(q) /\ e.e = (q = <<>>) /\ e.c /\ UNCHANGED <<q, pend, weak, pushed, taken>>
    [] OTHER -> FALSE
\* owner's steals (draining from the other end) are operations of thread 0 too
TNext == \/ l <= Len(Trace) /\ l' = l + 1 /\ Ev(Trace[l])
         \/ /\ \E t \in Threads : Effect(t) \/ Spurious(t)
            /\ UNCHANGED l
TSpec == TInit /\ [][TNext]_vars
Note == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"MATCHED", TLCGet(1) - 1, Len(Trace)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
