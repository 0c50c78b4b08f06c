------------------------------ MODULE Stack -----------------------------
(***************************************************************************)
(* gel/collections/stack.h: generated bounded LIFO (property C04).         *)
(* Concrete: idx and a cell array (cells beyond idx keep stale items).     *)
(* Ghost: sequence s, bottom first.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Ops, Cells

VARIABLES cap, idx, items, s, obs
vars == <<cap, idx, items, s, obs>>
View == <<cap, idx, s>>

Ret(r, d, c, ss) == [r |-> r, d |-> d, empty |-> IF ss = <<>> THEN 1 ELSE 0, full |-> IF Len(ss) = c THEN 1 ELSE 0]
Out(e, r, d) == obs' = [op |-> e, ret |-> Ret(r, d, cap', s')]
Keep == UNCHANGED <<cap, idx, items, s>>

Init == cap = 0 /\ idx = 0 /\ items = <<>> /\ s = <<>> /\ obs = [op |-> [op |-> "none"], ret |-> 0]

Reset(e) == /\ e.op = "reset" /\ cap' = 0 /\ idx' = 0 /\ items' = <<>> /\ s' = <<>> /\ obs' = [op |-> e, ret |-> 0]

InitStack(e) == /\ e.op = "init" /\ cap' = e.cap /\ idx' = 0 /\ s' = <<>>
                /\ items' = IF Cells THEN [i \in 0..e.cap-1 |-> -1] ELSE <<>>
                /\ Out(e, 0, <<>>)

Push(e) == /\ e.op = "push" /\ cap > 0
           /\ IF idx = cap THEN Keep /\ Out(e, 1, <<>>)
              ELSE /\ s' = Append(s, e.v) /\ idx' = idx + 1
                   /\ items' = IF Cells THEN [items EXCEPT ![idx] = e.v] ELSE items
                   /\ UNCHANGED cap /\ Out(e, 0, <<>>)

Pop(e) == /\ e.op = "pop" /\ cap > 0
          /\ IF idx = 0 THEN Keep /\ Out(e, 1, <<>>)
             ELSE /\ Cells => Assert(items[idx - 1] = s[Len(s)], "top cell")
                  /\ s' = SubSeq(s, 1, Len(s) - 1) /\ idx' = idx - 1 /\ UNCHANGED <<cap, items>>
                  /\ Out(e, 0, IF e.want = 1 THEN <<s[Len(s)]>> ELSE <<>>)

Peek(e) == /\ e.op = "peek" /\ cap > 0 /\ Keep
           /\ IF idx = 0 THEN Out(e, 1, <<>>)
              ELSE Out(e, 0, IF e.want = 1 THEN <<s[Len(s)]>> ELSE <<>>)

\* bottom removal: shift every other item down by one
Bottom(e) == /\ e.op = "bottom" /\ cap > 0
             /\ IF idx = 0 THEN Keep /\ Out(e, 0, <<>>)
                ELSE /\ s' = Tail(s) /\ idx' = idx - 1 /\ UNCHANGED cap
                     /\ items' = IF Cells THEN [i \in 0..cap-1 |-> IF i < idx - 1 THEN items[i+1] ELSE items[i]] ELSE items
                     /\ Out(e, 0, <<>>)

\* many calls logged as one event
PushN(e) == /\ e.op = "pushn" /\ cap > 0 /\ ~Cells
            /\ LET n == IF e.n < cap - idx THEN e.n ELSE cap - idx
               IN  /\ s' = s \o [i \in 1..n |-> e.v + i - 1] /\ idx' = idx + n /\ UNCHANGED <<cap, items>>
                   /\ Out(e, n, <<>>)
PopN(e) == /\ e.op = "popn" /\ cap > 0 /\ ~Cells
           /\ LET n == IF e.n < idx THEN e.n ELSE idx
              IN  /\ s' = SubSeq(s, 1, idx - n) /\ idx' = idx - n /\ UNCHANGED <<cap, items>>
                  /\ Out(e, n, [i \in 1..n |-> s[idx - i + 1]])

Step(e) == Reset(e) \/ InitStack(e) \/ Push(e) \/ Pop(e) \/ Peek(e) \/ Bottom(e) \/ PushN(e) \/ PopN(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

Bounded == idx = Len(s) /\ idx <= cap
Refines == Cells /\ cap > 0 => s = [i \in 1..idx |-> items[i - 1]]
Lifo == [][ LET e == obs'.op IN
            \/ e.op \in {"reset", "init"}
            \/ e.op \in {"push", "pushn"} /\ s = SubSeq(s', 1, Len(s))
            \/ e.op \in {"pop", "popn"} /\ s' = SubSeq(s, 1, Len(s'))
            \/ e.op = "peek" /\ s' = s
            \/ e.op = "bottom" /\ (s = <<>> \/ s' = Tail(s)) ]_vars
===========================================================================
