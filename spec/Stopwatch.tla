---------------------------- MODULE Stopwatch ---------------------------
(***************************************************************************)
(* gel/timer/stopwatch (property C13).  Ideal: state, acc (exact time      *)
(* counted), total.  Concrete: the timestamps modulo R and the fields of   *)
(* the structure; every step asserts that the formulas of the code on the  *)
(* concrete fields give the ideal values.  Each event carries dt, the time *)
(* since the previous one; all totals stay below half the range R.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, R, Totals   \* R even; Totals: periods allowed
VARIABLES st, acc, total, now, cs, ce, obs
vars == <<st, acc, total, now, cs, ce, obs>>
H == R \div 2
\* only the age of the start matters to the future, and only while counting
View == <<st, acc, total, IF st = "counting" THEN (now - cs) % R ELSE 0, ce>>
Bool(x) == IF x THEN 1 ELSE 0
Code == [stopped |-> 0, counting |-> 1, paused |-> 2]

Init == /\ st = "stopped" /\ acc = 0 /\ total = 0 /\ now = 0 /\ cs = 0 /\ ce = 0
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == /\ e.op = "reset"
            /\ st' = "stopped" /\ acc' = 0 /\ total' = 0 /\ now' = 0 /\ cs' = 0 /\ ce' = 0
            /\ obs' = [op |-> e, ret |-> 0]

T(e) == (now + e.dt) % R
Counted(e) == IF st = "counting" THEN acc + e.dt ELSE acc
\* the histories of the property: no total reaches half the timestamp range
Allowed(e) == e.dt >= 0 /\ Counted(e) < H

(*------------------------- formulas of the code ------------------------*)
After(a, b) == (b - a) % R >= H
Interval(a, b) == IF After(a, b) THEN (a - b) % R ELSE (b - a) % R
CElapsed(s, e0, c, t) == IF s = "counting" THEN (e0 + Interval(c, t)) % R ELSE e0
CReached(s, e0, c, tot, t) ==
  CASE s = "stopped" -> FALSE
    [] s = "counting" -> IF tot > e0 THEN LET due == (c + (tot - e0)) % R IN t = due \/ After(t, due) ELSE TRUE
    [] s = "paused" -> e0 >= tot

\* what every call answers, and every query right after it
Out(e, code) ==
  LET rem == IF acc' < total' THEN total' - acc' ELSE 0
      reached == st' # "stopped" /\ rem = 0
  IN /\ Assert(/\ CElapsed(st', ce', cs', now') = acc'
               /\ CReached(st', ce', cs', total', now') = reached,
               <<"formulas of the code", st', acc', total', now', cs', ce'>>)
     /\ obs' = [op |-> e, ret |-> <<code, Code[st'], acc', rem, Bool(reached), total'>>]

Start(e) == /\ e.op = "start" /\ Allowed(e) /\ now' = T(e) /\ UNCHANGED total
            /\ acc' = Counted(e)
            /\ IF st = "counting" THEN UNCHANGED <<st, cs, ce>> /\ Out(e, -1)
               ELSE st' = "counting" /\ cs' = T(e) /\ ce' = ce /\ Out(e, 0)
Stop(e) == /\ e.op = "stop" /\ Allowed(e) /\ now' = T(e) /\ UNCHANGED total
           /\ st' = "stopped" /\ acc' = 0 /\ cs' = 0 /\ ce' = 0 /\ Out(e, 0)
Pause(e) == /\ e.op = "pause" /\ Allowed(e) /\ now' = T(e) /\ UNCHANGED <<total, cs>>
            /\ acc' = Counted(e)
            /\ IF st = "counting" THEN st' = "paused" /\ ce' = (ce + Interval(cs, T(e))) % R /\ Out(e, 0)
               ELSE UNCHANGED <<st, ce>> /\ Out(e, -1)
Restart(e) == /\ e.op = "restart" /\ Allowed(e) /\ now' = T(e) /\ UNCHANGED total
              /\ st' = "counting" /\ acc' = 0 /\ cs' = T(e) /\ ce' = 0 /\ Out(e, 0)
\* stopwatch_change has no result: 0 stands for it
Change(e) == /\ e.op = "change" /\ Allowed(e) /\ e.p < H /\ now' = T(e) /\ total' = e.p
             /\ st' = "counting" /\ acc' = 0 /\ cs' = T(e) /\ ce' = 0 /\ Out(e, 0)
Set(e) == /\ e.op = "set" /\ Allowed(e) /\ e.p < H /\ now' = T(e) /\ UNCHANGED <<st, cs, ce>>
          /\ acc' = Counted(e)
          /\ IF st = "stopped" THEN total' = e.p /\ Out(e, 0) ELSE UNCHANGED total /\ Out(e, -1)
SetElapsed(e) == /\ e.op = "sete" /\ Allowed(e) /\ e.p < H /\ now' = T(e) /\ UNCHANGED <<st, cs, total>>
                 /\ IF st = "stopped" THEN acc' = e.p /\ ce' = e.p /\ Out(e, 0)
                    ELSE acc' = Counted(e) /\ UNCHANGED ce /\ Out(e, -1)
\* stopwatch_setngo: set and start in one, without a result; each part does what it does in this state
SetGo(e) == /\ e.op = "setngo" /\ Allowed(e) /\ e.p < H /\ now' = T(e) /\ acc' = Counted(e) /\ UNCHANGED ce
            /\ total' = IF st = "stopped" THEN e.p ELSE total
            /\ st' = "counting" /\ cs' = IF st = "counting" THEN cs ELSE T(e)
            /\ Out(e, 0)
Query(e) == /\ e.op = "query" /\ Allowed(e) /\ now' = T(e) /\ acc' = Counted(e)
            /\ UNCHANGED <<st, cs, ce, total>> /\ Out(e, 0)

Step(e) == Reset(e) \/ Start(e) \/ Stop(e) \/ Pause(e) \/ Restart(e) \/ Change(e) \/ Set(e) \/ SetElapsed(e) \/ SetGo(e) \/ Query(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
Bounds == acc \in 0..H-1 /\ total \in 0..H-1 /\ ce <= acc
Frozen == [][ st = "paused" /\ st' = "paused" => acc' = acc ]_vars
Monotone == [][ st = "counting" /\ st' = "counting" /\ obs'.op.op \notin {"restart", "change", "reset"}
                => acc' = acc + obs'.op.dt /\ total' = total ]_vars
Refused == [][ obs'.op.op # "reset" /\ obs'.ret[1] = -1 => st' = st /\ total' = total /\ (st # "counting" => acc' = acc) ]_vars
===========================================================================
