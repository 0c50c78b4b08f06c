------------------------------ MODULE Timer -----------------------------
(***************************************************************************)
(* gel/timer/timer (property C14) over the ideal stopwatch: state, counted *)
(* time, period, autoreload flag.  A poll names what the callback does to  *)
(* the timer when it is invoked (act).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, H             \* all totals stay below H (half the timestamp range)
VARIABLES st, acc, total, auto, obs
vars == <<st, acc, total, auto, obs>>
View == <<st, acc, total, auto>>
Init == st = "stopped" /\ acc = 0 /\ total = 0 /\ auto = 0 /\ obs = [op |-> [op |-> "none"], ret |-> 0]
\* GEL_TIMER_NULL
Reset(e) == e.op = "reset" /\ st' = "stopped" /\ acc' = 0 /\ total' = 0 /\ auto' = 0 /\ obs' = [op |-> e, ret |-> 0]

Counted(e) == IF st = "counting" THEN acc + e.dt ELSE acc
Allowed(e) == e.dt >= 0 /\ Counted(e) < H
\* <<return value of a poll, callbacks invoked, remaining time>>
Out(e, r, n) == obs' = [op |-> e, ret |-> <<r, n, IF acc' < total' THEN total' - acc' ELSE 0>>]

InitT(e) == /\ e.op = "init" /\ Allowed(e) /\ e.p < H
            /\ st' = "counting" /\ acc' = 0 /\ total' = e.p /\ auto' = 0 /\ Out(e, 0, 0)
Stop(e) == /\ e.op = "stop" /\ Allowed(e) /\ st' = "stopped" /\ acc' = 0 /\ UNCHANGED <<total, auto>> /\ Out(e, 0, 0)
Auto(e) == /\ e.op = "auto" /\ Allowed(e) /\ auto' = e.v /\ acc' = Counted(e) /\ UNCHANGED <<st, total>> /\ Out(e, 0, 0)
Pause(e) == /\ e.op = "pause" /\ Allowed(e) /\ acc' = Counted(e) /\ UNCHANGED <<total, auto>>
            /\ st' = (IF st = "counting" THEN "paused" ELSE st) /\ Out(e, 0, 0)
Resume(e) == /\ e.op = "resume" /\ Allowed(e) /\ acc' = Counted(e) /\ UNCHANGED <<total, auto>>
             /\ st' = "counting" /\ Out(e, 0, 0)
ResetT(e) == /\ e.op = "rst" /\ Allowed(e) /\ UNCHANGED <<st, total, auto>>
             /\ acc' = 0 /\ Out(e, 0, 0)
Change(e) == /\ e.op = "change" /\ Allowed(e) /\ e.p < H /\ UNCHANGED <<st, auto>>
             /\ acc' = 0 /\ total' = (IF st = "stopped" THEN total ELSE e.p) /\ Out(e, 0, 0)
Due(e) == st # "stopped" /\ Counted(e) >= total
\* what the callback did: <<period, autoreload>> left behind
Acted(e) == CASE e.act = "auto1" -> <<total, 1>>
              [] e.act = "auto0" -> <<total, 0>>
              [] e.act = "change" -> <<e.p, auto>>
              [] OTHER -> <<total, auto>>
Poll(e) == /\ e.op = "poll" /\ Allowed(e)
           /\ IF Due(e) THEN /\ acc' = 0 /\ total' = Acted(e)[1] /\ auto' = Acted(e)[2]
                             /\ st' = (IF auto' # 0 THEN "counting" ELSE "stopped") /\ Out(e, 1, 1)
              ELSE /\ acc' = Counted(e) /\ UNCHANGED <<st, total, auto>> /\ Out(e, 0, 0)

Step(e) == Reset(e) \/ InitT(e) \/ Stop(e) \/ Auto(e) \/ Pause(e) \/ Resume(e) \/ ResetT(e) \/ Change(e) \/ Poll(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
StoppedIsZero == st = "stopped" => acc = 0
\* a one-shot timer fires at most once per arming; nothing but a poll fires
OnceOnly == [][ obs'.op.op # "reset" /\ obs'.ret[2] = 1 => obs'.op.op = "poll" /\ (auto' = 0 => st' = "stopped") ]_vars
NeverStopped == [][ st = "stopped" /\ obs'.op.op = "poll" => obs'.ret[2] = 0 ]_vars
Periodic == [][ obs'.op.op = "poll" /\ obs'.ret[2] = 1 /\ auto' # 0 => st' = "counting" /\ acc' = 0 ]_vars
===========================================================================
