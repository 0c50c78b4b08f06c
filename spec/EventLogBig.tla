--------------------------- MODULE EventLogBig --------------------------
(***************************************************************************)
(* gel/circular_event_log (property C06) with many events: the events are  *)
(* the numbers 1, 2, 3, ... in the order in which they were saved, so the  *)
(* retained ones are the last min(n, cap) of 1..n.  slots is the concrete  *)
(* storage for small capacities (Cells = TRUE), to show that the position  *)
(* arithmetic implements that.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Ops, Cells, MaxN

VARIABLES cap, n, np, full, slots, obs
vars == <<cap, n, np, full, slots, obs>>
View == <<cap, n, np, full, slots>>

Min(a, b) == IF a < b THEN a ELSE b
Init == /\ cap = 0 /\ n = 0 /\ np = 0 /\ full = FALSE /\ slots = <<>>
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]

Reset(e) == /\ e.op = "reset" /\ cap' = 0 /\ n' = 0 /\ np' = 0 /\ full' = FALSE /\ slots' = <<>>
            /\ obs' = [op |-> e, ret |-> 0]
New(e) == /\ e.op = "new" /\ cap = 0 /\ cap' = e.cap /\ n' = 0 /\ np' = 0 /\ full' = FALSE
          /\ slots' = IF Cells THEN [i \in 0..e.cap-1 |-> 0] ELSE <<>>
          /\ obs' = [op |-> e, ret |-> [r |-> 0, d |-> <<>>, total |-> 0]]

\* e.k events are saved one after the other; total after each is checked by the harness to be min(n, cap)
SaveN(e) == /\ e.op = "saven" /\ cap > 0 /\ n + e.k <= MaxN
            /\ n' = n + e.k /\ np' = (np + e.k) % cap /\ full' = (full \/ np + e.k >= cap)
            /\ slots' = IF Cells THEN [i \in 0..cap-1 |-> LET age == (((np + e.k - 1 - i) % cap) + cap) % cap
                                                          IN IF age < e.k THEN n + e.k - age ELSE slots[i]] ELSE slots
            /\ UNCHANGED cap
            /\ obs' = [op |-> e, ret |-> [r |-> 0, d |-> <<>>, total |-> Min(n', cap)]]

Restore(e) == /\ e.op = "restore" /\ cap > 0 /\ UNCHANGED <<cap, n, np, full, slots>>
              /\ obs' = [op |-> e, ret |-> [r |-> 0, d |-> <<>>, total |-> Min(n, cap)]]

\* the first and last event of the window, which must be consecutive numbers
LoadN(e) == /\ e.op = "loadn" /\ cap > 0 /\ UNCHANGED <<cap, n, np, full, slots>>
            /\ LET total == Min(n, cap)
                   cnt   == IF e.jump >= total THEN 0 ELSE Min(e.number, total - e.jump)
               IN obs' = [op |-> e, ret |-> [r |-> cnt, total |-> total,
                                            d |-> IF cnt = 0 THEN <<>> ELSE <<n - e.jump - cnt + 1, n - e.jump>>]]

Step(e) == Reset(e) \/ New(e) \/ SaveN(e) \/ Restore(e) \/ LoadN(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

Position == cap > 0 => np = n % cap /\ full = (n >= cap)
Stored   == cap > 0 /\ Cells => \A k \in 1..Min(n, cap) : slots[((n - k) % cap)] = n - k + 1
===========================================================================
