------------------------------- MODULE List -----------------------------
(***************************************************************************)
(* gel/collections/listx.h: intrusive doubly linked lists (property C05).  *)
(* Nodes: sentinel of list l is -l; the link of element x used by lists of *)
(* group g is x*G+g (an element can be on one list per group, through      *)
(* different links).  Concrete: nxt, prv.  Ghost: seqs[l].                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ops, NL, NE, G   \* lists, elements, groups (list l belongs to group l % G)

VARIABLES nxt, prv, seqs, obs
vars == <<nxt, prv, seqs, obs>>
View == <<seqs, [n \in DOMAIN nxt |-> IF n < 0 THEN nxt[n] ELSE 0]>>

Nodes == {-l : l \in 1..NL} \cup {x * G + g : x \in 1..NE, g \in 0..G-1}
Grp(l) == l % G
Link(x, l) == x * G + Grp(l)
Elem(n) == n \div G
InList(x, l) == \E i \in 1..Len(seqs[l]) : seqs[l][i] = x
FreeIn(x, g) == \A l \in 1..NL : Grp(l) = g => ~InList(x, l)
Nil == -999

Init == /\ nxt = [n \in Nodes |-> Nil] /\ prv = [n \in Nodes |-> Nil]
        /\ seqs = [l \in 1..NL |-> <<>>]
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]

(* traversals of the concrete ring *)
Ready(nx, l) == nx[-l] # Nil
RECURSIVE Walk(_, _, _)
Walk(f, l, n) == IF n = -l THEN <<>> ELSE <<Elem(n)>> \o Walk(f, l, f[n])
Id(l, n) == IF n = -l THEN 0 ELSE Elem(n)

\* what is observed of list l: both traversals (links and entries), emptiness, and the queries at every position
ObsOf(nx, pv, l) ==
  IF ~Ready(nx, l) THEN [f |-> <<>>, b |-> <<>>, empty |-> -1, hn |-> -1, hp |-> -1, q |-> <<>>]
  ELSE LET f == Walk(nx, l, nx[-l])
       IN [f |-> f, b |-> Walk(pv, l, pv[-l]),
           empty |-> IF f = <<>> THEN 1 ELSE 0,
           hn |-> IF f = <<>> THEN -2 ELSE Id(l, nx[-l]),      \* -2: NULL
           hp |-> IF f = <<>> THEN -2 ELSE Id(l, pv[-l]),
           q |-> [i \in 1..Len(f) |-> LET n == Link(f[i], l)
                                      IN <<IF nx[n] = -l THEN 1 ELSE 0, Id(l, nx[n]), Id(l, pv[n])>>]]
Out(e) == obs' = [op |-> e, ret |-> [l \in 1..NL |-> ObsOf(nxt', prv', l)]]

Between(n, a, b) == /\ nxt' = [nxt EXCEPT ![n] = b, ![a] = n]
                    /\ prv' = [prv EXCEPT ![b] = n, ![n] = a]

Reset(e) == /\ e.op = "reset"
            /\ nxt' = [n \in Nodes |-> Nil] /\ prv' = [n \in Nodes |-> Nil]
            /\ seqs' = [l \in 1..NL |-> <<>>] /\ obs' = [op |-> e, ret |-> 0]

InitList(e) == /\ e.op = "init"
               /\ nxt' = [nxt EXCEPT ![-e.l] = -e.l] /\ prv' = [prv EXCEPT ![-e.l] = -e.l]
               /\ seqs' = [seqs EXCEPT ![e.l] = <<>>]
               /\ Out(e)

Add(e) == /\ e.op = "add" /\ Ready(nxt, e.l) /\ FreeIn(e.x, Grp(e.l))
          /\ Between(Link(e.x, e.l), -e.l, nxt[-e.l])
          /\ seqs' = [seqs EXCEPT ![e.l] = <<e.x>> \o @]
          /\ Out(e)

AddTail(e) == /\ e.op = "addt" /\ Ready(nxt, e.l) /\ FreeIn(e.x, Grp(e.l))
              /\ Between(Link(e.x, e.l), prv[-e.l], -e.l)
              /\ seqs' = [seqs EXCEPT ![e.l] = Append(@, e.x)]
              /\ Out(e)

Del(e) == /\ e.op = "del" /\ InList(e.x, e.l)
          /\ LET n == Link(e.x, e.l)
             IN  /\ nxt' = [nxt EXCEPT ![prv[n]] = nxt[n]]
                 /\ prv' = [prv EXCEPT ![nxt[n]] = prv[n]]
          /\ seqs' = [seqs EXCEPT ![e.l] = SelectSeq(@, LAMBDA y : y # e.x)]
          /\ Out(e)

Step(e) == Reset(e) \/ InitList(e) \/ Add(e) \/ AddTail(e) \/ Del(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

\* both directions of every ring are exactly the ghost sequence
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Refines == \A l \in 1..NL : Ready(nxt, l) =>
             /\ Walk(nxt, l, nxt[-l]) = seqs[l]
             /\ Walk(prv, l, prv[-l]) = Rev(seqs[l])
Distinct == \A g \in 0..G-1 : \A x \in 1..NE :
              Cardinality({<<l, i>> \in (1..NL) \X (1..NE) : Grp(l) = g /\ i <= Len(seqs[l]) /\ seqs[l][i] = x}) <= 1
\* an operation changes only its own list
Local == [][ \A l \in 1..NL : obs'.op.op # "reset" /\ (IF "l" \in DOMAIN obs'.op THEN obs'.op.l # l ELSE FALSE)
                 => seqs'[l] = seqs[l] ]_vars
===========================================================================
