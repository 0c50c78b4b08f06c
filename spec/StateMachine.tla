--------------------------- MODULE StateMachine -------------------------
(***************************************************************************)
(* gel/state_machine (property C25): M machines, each with a current state *)
(* and a table of handlers (several tables exist; a machine can be given   *)
(* another one).  What a handler returns is part of the event; before it   *)
(* returns it may send further events, to its own machine or to another,   *)
(* whose handlers may do so in turn: an event is a tree                    *)
(* <<machine, event, result, <<events sent by the handler>>>>.  A nested   *)
(* result is installed first, so a negative outer result keeps it and      *)
(* another one replaces it.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, M, NS     \* machines, states
VARIABLES m, obs         \* m[i] = [st, tab]
vars == <<m, obs>>
View == m
Fresh == [i \in 1..M |-> [st |-> 0, tab |-> 0]]
Init == m = Fresh /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ m' = Fresh /\ obs' = [op |-> e, ret |-> 0]

States == [i \in 1..M |-> m'[i].st]
\* <<result, handler calls <<table, handler, model, event>>, states of all machines, results of nested sends>>
Out(e, r, calls, n) == obs' = [op |-> e, ret |-> <<r, calls, States, n>>]
Apply(s, res) == IF res >= 0 THEN res ELSE s
Ret(res) == IF res >= 0 THEN 1 ELSE 0
\* what sending the event n with the machines x does: [m |-> machines, calls |-> handler calls, rets |-> results of nested sends]
RECURSIVE Run(_, _, _), Subs(_, _, _)
Run(x, n, p) == LET a == Subs([m |-> x, calls |-> <<<<x[n[1]].tab, x[n[1]].st, p, n[2]>>>>, rets |-> <<>>], n[4], p)
                IN [a EXCEPT !.m[n[1]].st = Apply(@, n[3])]
Subs(a, s, p) == IF s = <<>> THEN a
                 ELSE LET r == Run(a.m, Head(s), p)
                      IN Subs([m |-> r.m, calls |-> a.calls \o r.calls, rets |-> a.rets \o r.rets \o <<Ret(Head(s)[3])>>], Tail(s), p)
Root(e) == <<e.i, e.ev, e.res, e.sub>>
Send(e) == /\ e.op = "send"
           /\ LET r == Run(m, Root(e), e.p)
              IN m' = r.m /\ Out(e, Ret(e.res), r.calls, r.rets)
TableOp(e) == e.op = "table" /\ m' = [m EXCEPT ![e.i].tab = e.t] /\ Out(e, 0, <<>>, <<>>)
Put(e) == e.op = "state" /\ m' = [m EXCEPT ![e.i].st = e.s] /\ Out(e, 0, <<>>, <<>>)
Step(e) == Reset(e) \/ Send(e) \/ TableOp(e) \/ Put(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
E == obs'.op
InRange == \A i \in 1..M : m[i].st \in 0..NS - 1
RECURSIVE Nodes(_), NodesOf(_)
Nodes(n) == <<n>> \o NodesOf(n[4])
NodesOf(s) == IF s = <<>> THEN <<>> ELSE Nodes(Head(s)) \o NodesOf(Tail(s))
\* exactly one handler call per event sent, in the order of sending, the first of the state at the time of the send; machines to which nothing is sent rest
Once == [][ E.op = "send" => LET ns == Nodes(Root(E)) IN
             /\ Len(obs'.ret[2]) = Len(ns)
             /\ \A k \in 1..Len(ns) : obs'.ret[2][k][4] = ns[k][2]
             /\ obs'.ret[2][1][2] = m[E.i].st
             /\ \A j \in 1..M : (\A k \in 1..Len(ns) : ns[k][1] # j) => m'[j] = m[j] ]_vars
NegativeStays == [][ (E.op = "send" /\ E.sub = <<>>) => ((E.res < 0) => (m'[E.i].st = m[E.i].st /\ obs'.ret[1] = 0)) ]_vars
OtherMoves == [][ E.op = "send" => ((E.res >= 0) => (m'[E.i].st = E.res /\ obs'.ret[1] = 1)) ]_vars
===========================================================================
