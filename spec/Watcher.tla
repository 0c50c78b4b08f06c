----------------------------- MODULE Watcher ----------------------------
(***************************************************************************)
(* gel/data_structures/watcher (property C15).  Per watched block: its     *)
(* content (an abstract value), the acknowledged content, whether a        *)
(* notification is pending and the time since the last detected change.    *)
(* Delay[i] = 0 is an immediate watcher.  A process event may name a side  *)
(* effect: when the callback of watcher si runs it sets block sj to sv.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, Delay, Cap     \* ages are counted up to Cap (> every delay)
VARIABLES w, obs
vars == <<w, obs>>
N == Len(Delay)
View == [i \in 1..N |-> [w[i] EXCEPT !.age = IF w[i].pend THEN @ ELSE 0]]
Fresh == [cur |-> 0, ack |-> 0, pend |-> FALSE, age |-> 0]
Init == w = [i \in 1..N |-> Fresh] /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ w' = [i \in 1..N |-> Fresh] /\ obs' = [op |-> e, ret |-> 0]

Up(x, dt) == IF x + dt > Cap THEN Cap ELSE x + dt
Aged(e) == [i \in 1..N |-> [w[i] EXCEPT !.age = Up(@, e.dt)]]
Differs(x) == x.cur # x.ack
\* every call answers <<result, callbacks in order, blocks modified by the library>>
Out(e, r, cbs) == obs' = [op |-> e, ret |-> <<r, cbs, 0>>]

Mod(e) == e.op = "mod" /\ w' = [w EXCEPT ![e.i].cur = e.v] /\ Out(e, 0, <<>>)

Side(ws, e, i) == IF e.si = i THEN [ws EXCEPT ![e.sj].cur = e.sv] ELSE ws
\* one pass over the list: [ws, cbs, res]
RECURSIVE Pass(_, _, _)
Pass(s, e, i) ==
  IF i > N THEN s
  ELSE LET x == s.ws[i] IN
       IF Differs(x) THEN
         IF Delay[i] > 0 THEN Pass([s EXCEPT !.ws[i] = [x EXCEPT !.ack = x.cur, !.pend = TRUE, !.age = 0], !.res = 1], e, i + 1)
         ELSE Pass([ws |-> Side([s.ws EXCEPT ![i].ack = x.cur], e, i), cbs |-> Append(s.cbs, i), res |-> 1], e, i + 1)
       ELSE IF x.pend /\ x.age >= Delay[i] THEN
         Pass([s EXCEPT !.ws = Side([s.ws EXCEPT ![i].pend = FALSE], e, i), !.cbs = Append(@, i)], e, i + 1)
       ELSE Pass(s, e, i + 1)

Process(e) == /\ e.op = "process"
              /\ LET r == Pass([ws |-> Aged(e), cbs |-> <<>>, res |-> 0], e, 1)
                 IN w' = r.ws /\ Out(e, r.res, r.cbs)
Check(e) == e.op = "check" /\ w' = w /\ Out(e, IF \E i \in 1..N : Differs(w[i]) THEN 1 ELSE 0, <<>>)
\* acknowledges without notifying; a pending notification survives unless its block differs again
Clear(e) == /\ e.op = "clear"
            /\ w' = [i \in 1..N |-> LET x == Aged(e)[i] IN IF Differs(x) THEN [x EXCEPT !.ack = x.cur, !.pend = FALSE, !.age = 0] ELSE x]
            /\ Out(e, 0, <<>>)
Trig(e) == e.op = "trig" /\ w' = w /\ Out(e, 0, <<e.i>>)
TrigAll(e) == e.op \in {"trigall", "trigallcb"} /\ w' = w /\ Out(e, 0, [i \in 1..N |-> i])

Step(e) == Reset(e) \/ Mod(e) \/ Process(e) \/ Check(e) \/ Clear(e) \/ Trig(e) \/ TrigAll(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
Immediate == \A i \in 1..N : Delay[i] = 0 => ~w[i].pend
Op == obs'.op.op
Called(i) == \E k \in 1..Len(obs'.ret[2]) : obs'.ret[2][k] = i
Times(i) == {k \in 1..Len(obs'.ret[2]) : obs'.ret[2][k] = i}
Quiet == [][ (Op \in {"mod", "check", "clear"} => Len(obs'.ret[2]) = 0) ]_vars
\* without side effects a processing call acknowledges everything and notifies each watcher at most once, in order
Order == [][ Op = "process" => \A k \in 1..Len(obs'.ret[2]) - 1 : obs'.ret[2][k] < obs'.ret[2][k+1] ]_vars
Acked == [][ Op = "process" /\ obs'.op.si = 0 => (\A i \in 1..N : ~Differs(w'[i])) /\ (obs'.ret[1] = 1 <=> \E i \in 1..N : Differs(w[i])) ]_vars
Settled == [][ Op = "process" /\ obs'.op.si = 0 => \A i \in 1..N :
               Called(i) <=> IF Delay[i] = 0 THEN Differs(w[i]) ELSE w[i].pend /\ ~Differs(w[i]) /\ w[i].age + obs'.op.dt >= Delay[i] ]_vars
NotLost == [][ (Op \notin {"reset", "clear"} => \A i \in 1..N : w[i].pend => w'[i].pend \/ Called(i)) ]_vars
===========================================================================
