---------------------------- MODULE PageManager -------------------------
(***************************************************************************)
(* gel/pagemanager (property C22).  A page instance is [p, d, x]: which    *)
(* page description (1..Len(Cb)), the data its create callback returned    *)
(* (Null without one), and its extra argument.  cur is <<>> or <<instance>>*)
(* and stack holds the pages below, top last.  Cb[p] is the set of the     *)
(* callbacks page p has, out of "create", "open", "close", "destroy",      *)
(* "update"; Id[p] its identifier.  Upd: updates are compiled in.          *)
(* A step reports the callbacks made, in order, with all their arguments.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, Depth, Cb, Id, Upd
VARIABLES cur, stack, life, obs      \* life: the states of the instances ("open", "closed"), by data, when all have a create callback
vars == <<cur, stack, life, obs>>
View == <<cur, stack, life>>
Null == 0
NoLife == [i \in {} |-> ""]
Init == cur = <<>> /\ stack = <<>> /\ life = NoLife /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ cur' = <<>> /\ stack' = <<>> /\ life' = NoLife /\ obs' = [op |-> e, ret |-> 0]

AllCreate == \A p \in 1..Len(Cb) : {"create", "open", "close", "destroy"} \subseteq Cb[p]
Has(i, c) == c \in Cb[i.p]
\* the callback calls: <<what, page, model, data, extra, event>> with 0 where there is none
Create(i, m) == IF Has(i, "create") THEN << <<"create", i.p, m, 0, i.x, 0>> >> ELSE <<>>
Open(i, m) == IF Has(i, "open") THEN << <<"open", i.p, m, i.d, 0, 0>> >> ELSE <<>>
Close(i) == IF Has(i, "close") THEN << <<"close", i.p, 0, i.d, 0, 0>> >> ELSE <<>>
Destroy(i) == IF Has(i, "destroy") THEN << <<"destroy", i.p, 0, i.d, i.x, 0>> >> ELSE <<>>
Update(i, m) == IF Upd /\ Has(i, "update") THEN << <<"update", i.p, m, i.d, 0, 0>> >> ELSE <<>>
ViewOf(i) == IF Upd /\ Has(i, "update") THEN 1000 + i.d ELSE 0
RECURSIVE DestroyAll(_)
DestroyAll(s) == IF s = <<>> THEN <<>> ELSE Destroy(s[Len(s)]) \o DestroyAll(SubSeq(s, 1, Len(s) - 1))
Make(e) == [p |-> e.p, d |-> IF "create" \in Cb[e.p] THEN e.d ELSE Null, x |-> e.x]
Show(i, m) == Open(i, m) \o Update(i, m)
Leave == IF cur = <<>> THEN <<>> ELSE Close(cur[1]) \o Destroy(cur[1])

\* the life of the instances, checked call by call
Live1(l, c) == CASE c[1] = "create" -> l
                 [] c[1] = "open" -> IF Assert((c[4] \notin DOMAIN l \/ l[c[4]] = "closed") /\ \A k \in DOMAIN l : l[k] # "open", <<"opened twice", c, l>>)
                                     THEN [k \in DOMAIN l \cup {c[4]} |-> IF k = c[4] THEN "open" ELSE l[k]] ELSE l
                 [] c[1] = "close" -> IF Assert(c[4] \in DOMAIN l /\ l[c[4]] = "open", <<"closed when not open", c, l>>) THEN [l EXCEPT ![c[4]] = "closed"] ELSE l
                 [] c[1] = "destroy" -> IF Assert(c[4] \in DOMAIN l /\ l[c[4]] = "closed", <<"destroyed when not closed", c, l>>)
                                        THEN [k \in DOMAIN l \ {c[4]} |-> l[k]] ELSE l
                 [] OTHER -> IF Assert(c[4] \in DOMAIN l /\ l[c[4]] = "open", <<"used when not open", c, l>>) THEN l ELSE l
RECURSIVE Live(_, _)
Live(l, cs) == IF cs = <<>> THEN l ELSE Live(Live1(l, Head(cs)), Tail(cs))

\* <<callbacks, result, found (77: not written)>>
Out(e, calls, v, f) == /\ obs' = [op |-> e, ret |-> <<calls, v, f>>]
                       /\ life' = IF AllCreate THEN Live(life, calls) ELSE NoLife
Used == {stack[k].d : k \in 1..Len(stack)} \cup (IF cur = <<>> THEN {} ELSE {cur[1].d})

InitOp(e) == e.op = "init" /\ cur' = <<>> /\ stack' = <<>> /\ life' = NoLife /\ obs' = [op |-> e, ret |-> <<<<>>, 0, 77>>]
Change(e) == /\ e.op = "change" /\ e.d \notin Used /\ (cur # <<>> => Len(stack) < Depth)
             /\ LET i == Make(e) IN /\ cur' = <<i>> /\ stack' = stack \o cur
                                    /\ Out(e, (IF cur = <<>> THEN <<>> ELSE Close(cur[1])) \o Create(i, e.m) \o Show(i, e.m), ViewOf(i), 77)
Swap(e) == /\ e.op = "swap" /\ e.d \notin Used
           /\ LET i == Make(e) IN /\ cur' = <<i>> /\ UNCHANGED stack
                                  /\ Out(e, Leave \o Create(i, e.m) \o Show(i, e.m), ViewOf(i), 77)
Rebase(e) == /\ e.op = "rebase" /\ e.d \notin Used
             /\ LET i == Make(e) IN /\ cur' = <<i>> /\ stack' = <<>>
                                    /\ Out(e, Leave \o DestroyAll(stack) \o Create(i, e.m) \o Show(i, e.m), ViewOf(i), 77)
Back(e) == /\ e.op = "back" /\ cur # <<>>
           /\ IF stack = <<>> THEN UNCHANGED <<cur, stack>> /\ Out(e, <<>>, 0, 77)
              ELSE LET n == Len(stack) i == stack[n]
                   IN cur' = <<i>> /\ stack' = SubSeq(stack, 1, n - 1) /\ Out(e, Leave \o Show(i, e.m), ViewOf(i), 77)
ResetTo(e) == /\ e.op = "resetto"
              /\ LET n == Len(stack)
                     ks == {k \in 1..n : Id[stack[k].p] = e.id}
                     k == IF ks = {} THEN 0 ELSE CHOOSE x \in ks : \A y \in ks : y <= x
                     i == stack[k]
                 IN /\ cur' = (IF k = 0 THEN <<>> ELSE <<i>>) /\ stack' = SubSeq(stack, 1, k - 1)
                    /\ Out(e, Leave \o DestroyAll(SubSeq(stack, k + 1, n)) \o (IF k = 0 THEN <<>> ELSE Show(i, e.m)),
                           IF k = 0 THEN 0 ELSE ViewOf(i), IF k = 0 THEN 0 ELSE 1)
Event(e) == /\ e.op = "event" /\ cur # <<>> /\ UNCHANGED <<cur, stack>>
            /\ Out(e, << <<"event", cur[1].p, e.m, cur[1].d, 0, e.ev>> >>, 2000 + e.ev, 77)
Refresh(e) == e.op = "update" /\ cur # <<>> /\ UNCHANGED <<cur, stack>> /\ Out(e, Update(cur[1], e.m), ViewOf(cur[1]), 77)

Step(e) == Reset(e) \/ InitOp(e) \/ Change(e) \/ Swap(e) \/ Rebase(e) \/ Back(e) \/ ResetTo(e) \/ Event(e) \/ Refresh(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
Op == obs'.op.op
\* the living instances are exactly those visible or on the stack, and only the visible one is open
Lives == AllCreate => life = [k \in Used |-> IF cur # <<>> /\ cur[1].d = k THEN "open" ELSE "closed"]
NoPageNoStack == cur = <<>> => stack = <<>>
Bounded == Len(stack) <= Depth
BackIsInverse == [][ (Op = "back" /\ stack # <<>>) => (cur'[1] = stack[Len(stack)] /\ \A c \in 1..Len(obs'.ret[1]) : obs'.ret[1][c][1] # "create") ]_vars
LastStays == [][ (Op = "back" /\ stack = <<>>) => (cur' = cur /\ obs'.ret[1] = <<>>) ]_vars
===========================================================================
