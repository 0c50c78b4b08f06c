----------------------------- MODULE EventLog ---------------------------
(***************************************************************************)
(* gel/circular_event_log (property C06).  Concrete: slots of the storage, *)
(* position of the next event, full flag; a window is read in one or two   *)
(* parts around the wrap.  Ghost: log, the retained events, oldest first.  *)
(* Faults: a save may be refused with a code; one slot may be unreadable.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Ops

VARIABLES cap, np, full, slots, log, bad, obs
vars == <<cap, np, full, slots, log, bad, obs>>
View == <<cap, np, full, log, bad>>

NoBad == [slot |-> -1, code |-> 0]
Total(n, f) == IF f THEN cap ELSE n

Init == /\ cap = 0 /\ np = 0 /\ full = FALSE /\ slots = <<>> /\ log = <<>> /\ bad = NoBad
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]

Out(e, r, d) == obs' = [op |-> e, ret |-> [r |-> r, d |-> d, total |-> Len(log')]]

Reset(e) == /\ e.op = "reset" /\ cap' = 0 /\ np' = 0 /\ full' = FALSE /\ slots' = <<>> /\ log' = <<>> /\ bad' = NoBad
            /\ obs' = [op |-> e, ret |-> 0]

New(e) == /\ e.op = "new" /\ cap = 0 /\ cap' = e.cap /\ np' = 0 /\ full' = FALSE
          /\ slots' = [i \in 0..e.cap-1 |-> -1] /\ log' = <<>> /\ bad' = NoBad
          /\ Out(e, 0, <<>>)

\* save: the storage refuses it with code e.err (0 = accepts)
Save(e) == /\ e.op = "save" /\ cap > 0
           /\ IF e.err # 0 THEN UNCHANGED <<cap, np, full, slots, log, bad>> /\ Out(e, e.err, <<>>)
              ELSE /\ slots' = [slots EXCEPT ![np] = e.v]
                   /\ np' = (np + 1) % cap
                   /\ full' = (full \/ np + 1 = cap)
                   /\ log' = LET a == Append(log, e.v) IN IF Len(a) > cap THEN Tail(a) ELSE a
                   /\ UNCHANGED <<cap, bad>>
                   /\ Out(e, 0, <<>>)

\* power cycle: a fresh structure gets the saved position and full flag
Restore(e) == /\ e.op = "restore" /\ cap > 0 /\ UNCHANGED <<cap, np, full, slots, log, bad>> /\ Out(e, 0, <<>>)

\* slot e.slot becomes unreadable, reads touching it fail with e.code (slot -1: all readable)
Break(e) == /\ e.op = "break" /\ cap > 0 /\ e.slot < cap
            /\ bad' = IF e.slot < 0 THEN NoBad ELSE [slot |-> e.slot, code |-> e.code]
            /\ UNCHANGED <<cap, np, full, slots, log>> /\ Out(e, 0, <<>>)

\* number < 0 stands for the largest values of the type
Load(e) ==
  /\ e.op = "load" /\ cap > 0 /\ UNCHANGED <<cap, np, full, slots, log, bad>>
  /\ LET total == Total(np, full)
     IN IF e.jump < 0 \/ e.jump > total THEN Out(e, 0, <<>>)
        ELSE LET n     == IF e.number < 0 \/ e.number > total - e.jump THEN total - e.jump ELSE e.number
                 back  == n + e.jump
                 start == IF np >= back THEN np - back ELSE cap - (back - np)
                 win   == [i \in 1..n |-> (start + i - 1) % cap]
                 want  == SubSeq(log, Len(log) - back + 1, Len(log) - e.jump)
             IN /\ Assert(n = 0 \/ [i \in 1..n |-> slots[win[i]]] = want, "window differs from the retained events")
                /\ IF \E i \in 1..n : win[i] = bad.slot THEN Out(e, bad.code, <<>>)
                   ELSE Out(e, n, want)

Step(e) == Reset(e) \/ New(e) \/ Save(e) \/ Restore(e) \/ Break(e) \/ Load(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

Retained == cap > 0 => Len(log) = Total(np, full)
InRange  == cap > 0 => np \in 0..cap-1
Refines  == cap > 0 => \A i \in 1..Len(log) : slots[(np - Len(log) + i - 1 + cap) % cap] = log[i]
Newest   == [][ LET e == obs'.op IN
                IF e.op = "save" THEN IF e.err = 0 THEN log'[Len(log')] = e.v /\ Len(log') >= Len(log) ELSE log' = log
                ELSE e.op \in {"reset", "new"} \/ log' = log ]_vars
===========================================================================
