------------------------------ MODULE Queue -----------------------------
(***************************************************************************)
(* gel/collections/queue.h: generated bounded FIFO (property C03).         *)
(* Concrete: two free-running counters modulo Mod (65536 in the code) and  *)
(* a cell array addressed by counter mod capacity.  Ghost: sequence q.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Ops, Mod, Cells   \* Cells: TRUE to carry the cell array too

VARIABLES cap, ri, wi, items, q, obs
vars == <<cap, ri, wi, items, q, obs>>
View == <<cap, ri, wi, q>>

Count(w, r) == (w - r + Mod) % Mod

Ret(r, d, c, qq) == [r |-> r, d |-> d, count |-> Len(qq), empty |-> IF qq = <<>> THEN 1 ELSE 0,
                     full |-> IF Len(qq) = c THEN 1 ELSE 0]
Out(e, r, d) == obs' = [op |-> e, ret |-> Ret(r, d, cap', q')]
Keep == UNCHANGED <<cap, ri, wi, items, q>>

Init == cap = 0 /\ ri = 0 /\ wi = 0 /\ items = <<>> /\ q = <<>> /\ obs = [op |-> [op |-> "none"], ret |-> 0]

Reset(e) == /\ e.op = "reset" /\ cap' = 0 /\ ri' = 0 /\ wi' = 0 /\ items' = <<>> /\ q' = <<>>
            /\ obs' = [op |-> e, ret |-> 0]

\* (re-)initialisation: an empty queue whatever was there before
InitQueue(e) == /\ e.op = "init" /\ cap' = e.cap /\ ri' = 0 /\ wi' = 0 /\ q' = <<>>
                /\ items' = IF Cells THEN [i \in 0..e.cap-1 |-> -1] ELSE <<>>
                /\ Out(e, 0, <<>>)

\* the results, written as the code computes them from the counters
IsFull  == Count(wi, ri) = cap
IsEmpty == Count(wi, ri) = 0

Enqueue(e) == /\ e.op = "enq" /\ cap > 0
              /\ IF IsFull THEN Keep /\ Out(e, 1, <<>>)
                 ELSE /\ q' = Append(q, e.v) /\ wi' = (wi + 1) % Mod
                      /\ items' = IF Cells THEN [items EXCEPT ![wi % cap] = e.v] ELSE items
                      /\ UNCHANGED <<cap, ri>> /\ Out(e, 0, <<>>)

Dequeue(e) == /\ e.op = "deq" /\ cap > 0
              /\ IF IsEmpty THEN Keep /\ Out(e, 1, <<>>)
                 ELSE /\ Cells => Assert(items[ri % cap] = Head(q), "cell is not the oldest item")
                      /\ q' = Tail(q) /\ ri' = (ri + 1) % Mod /\ UNCHANGED <<cap, wi, items>>
                      /\ Out(e, 0, IF e.want = 1 THEN <<Head(q)>> ELSE <<>>)

Drop(e) == /\ e.op = "drop" /\ cap > 0
           /\ IF IsEmpty THEN Keep /\ Out(e, 1, <<>>)
              ELSE /\ q' = Tail(q) /\ ri' = (ri + 1) % Mod /\ UNCHANGED <<cap, wi, items>>
                   /\ Out(e, 0, <<>>)

(* Sequences of the basic calls, logged as one event so that histories of more than 65536 operations stay short. *)
\* k times: take the oldest item and enqueue it again (on an empty queue: enqueue an item and take it)
Spin(e) == /\ e.op = "spin" /\ cap > 0 /\ ~Cells
           /\ LET n == Len(q) k == IF n = 0 THEN 0 ELSE e.k % n
              IN  q' = SubSeq(q, k + 1, n) \o SubSeq(q, 1, k)
           /\ wi' = (wi + e.k) % Mod /\ ri' = (ri + e.k) % Mod /\ UNCHANGED <<cap, items>>
           /\ Out(e, 0, <<>>)   \* 0: no call failed, every item was the expected one

EnqN(e) == /\ e.op = "enqn" /\ cap > 0 /\ ~Cells
           /\ LET n == IF e.n < cap - Len(q) THEN e.n ELSE cap - Len(q)
              IN  /\ q' = q \o [i \in 1..n |-> e.v + i - 1] /\ wi' = (wi + n) % Mod
                  /\ UNCHANGED <<cap, ri, items>> /\ Out(e, n, <<>>)

DeqN(e) == /\ e.op = "deqn" /\ cap > 0 /\ ~Cells
           /\ LET n == IF e.n < Len(q) THEN e.n ELSE Len(q)
              IN  /\ q' = SubSeq(q, n + 1, Len(q)) /\ ri' = (ri + n) % Mod
                  /\ UNCHANGED <<cap, wi, items>> /\ Out(e, n, SubSeq(q, 1, n))

Step(e) == Reset(e) \/ InitQueue(e) \/ Enqueue(e) \/ Dequeue(e) \/ Drop(e) \/ Spin(e) \/ EnqN(e) \/ DeqN(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

Bounded  == Len(q) <= cap
Counters == cap > 0 => Count(wi, ri) = Len(q)
Refines  == Cells /\ cap > 0 => q = [i \in 1..Len(q) |-> items[((ri + i - 1) % Mod) % cap]]
Fifo == [][ LET e == obs'.op IN
            \/ e.op \in {"reset", "init", "spin"}
            \/ e.op \in {"enq", "enqn"} /\ q = SubSeq(q', 1, Len(q))
            \/ e.op \in {"deq", "drop", "deqn"} /\ q' = SubSeq(q, Len(q) - Len(q') + 1, Len(q)) ]_vars
===========================================================================
