------------------------------ MODULE Keypad ----------------------------
(***************************************************************************)
(* gel/keypad (property C11).  Concrete: the scan over the key table with  *)
(* its early exits, and per key value/oldvalue/lastevent and the ages      *)
(* (time elapsed since) of time_state and time_period.  Ghost: an abstract *)
(* automaton of the one engaged key; every step asserts that the scan      *)
(* yields exactly the event the automaton prescribes.                      *)
(* An event sample carries dt (time since the previous sample), b (index   *)
(* of the key whose bitmap is sampled, 0 for none or an unknown bitmap)    *)
(* and the times c (click), l (long click), p (period).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ops, K, Cap    \* ages are counted up to Cap (larger than every time in use)

VARIABLES key,   \* per key: [v, o, last, ts, tp]
          eng, stage, phase, age, rep, obs
ghost == <<eng, stage, phase, age, rep>>
vars == <<key, ghost, obs>>
\* ages of keys that are not engaged are never consulted
View == <<[k \in 1..K |-> [v |-> key[k].v, o |-> key[k].o, last |-> key[k].last,
                           ts |-> IF key[k].last \in {0, 6} \/ (key[k].last \in {4, 5} /\ key[k].v = 1) THEN 0 ELSE key[k].ts,
                           tp |-> IF key[k].last \in {0, 1, 6} \/ key[k].v = 0 THEN 0 ELSE key[k].tp]],
          eng, stage, phase>>

NOTHING == 0 PRESS == 1 PRESSING == 2 CLICK == 3 LONGCLICK == 4 LONGPRESS == 5 RELEASE == 6
Fresh == [v |-> 0, o |-> 0, last |-> NOTHING, ts |-> 0, tp |-> 0]
Up(x, dt) == IF x + dt > Cap THEN Cap ELSE x + dt

Init == /\ key = [k \in 1..K |-> Fresh] /\ eng = 0 /\ stage = "none" /\ phase = "none" /\ age = 0 /\ rep = 0
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]

Clean == /\ key' = [k \in 1..K |-> Fresh] /\ eng' = 0 /\ stage' = "none" /\ phase' = "none" /\ age' = 0 /\ rep' = 0
Reset(e) == e.op = "reset" /\ Clean /\ obs' = [op |-> e, ret |-> 0]

Values(ks) == [k \in 1..K |-> ks[k].v]
Out(e, code, ev) == obs' = [op |-> e, ret |-> <<code, ev, Values(key')>>]

\* keypad_reset_keys: every key is forgotten; one that is still held will be pressed anew
Silence(e) == e.op = "rst" /\ Clean /\ Out(e, 0, NOTHING)

(*------------------------------ the scan -------------------------------*)
Pending(s) == s.last \notin {RELEASE, NOTHING}
\* [ks |-> keys with updated values, f |-> index found (0: none)]
RECURSIVE Scan(_, _, _, _)
Scan(ks, b, i, f) ==
  IF i > K THEN [ks |-> ks, f |-> f]
  ELSE IF b = i THEN Scan([ks EXCEPT ![i].v = 1], b, i + 1, i)
  ELSE IF ks[i].o = 1 THEN [ks |-> [ks EXCEPT ![i].v = 0], f |-> i]
  ELSE IF Pending(ks[i]) THEN [ks |-> ks, f |-> i]
  ELSE Scan([ks EXCEPT ![i].v = 0], b, i + 1, f)

\* what happens to the key found: [s |-> new key state, ev |-> event]
Handle(s, e) ==
  IF s.v = s.o THEN
    IF s.last = PRESS /\ s.v = 1 /\ s.ts > e.c THEN [s |-> [s EXCEPT !.tp = 0, !.last = CLICK], ev |-> CLICK]
    ELSE IF s.last # RELEASE /\ s.v = 0 /\ s.ts > e.c THEN [s |-> [s EXCEPT !.last = RELEASE], ev |-> RELEASE]
    ELSE IF s.last \in {CLICK, PRESS} /\ s.ts > e.l THEN [s |-> [s EXCEPT !.ts = 0, !.tp = 0, !.last = LONGCLICK], ev |-> LONGCLICK]
    ELSE IF s.last = LONGCLICK /\ s.v = 1 /\ s.tp > e.p THEN [s |-> [s EXCEPT !.tp = 0], ev |-> LONGPRESS]
    ELSE IF s.last = CLICK /\ s.v = 1 /\ s.tp > e.p THEN [s |-> [s EXCEPT !.tp = 0], ev |-> PRESSING]
    ELSE [s |-> s, ev |-> NOTHING]
  ELSE LET t == [s EXCEPT !.o = s.v, !.ts = 0]
       IN IF s.v = 1 THEN [s |-> [t EXCEPT !.last = PRESS], ev |-> PRESS]
          ELSE IF s.last = PRESS THEN [s |-> [t EXCEPT !.last = RELEASE], ev |-> RELEASE]
          ELSE [s |-> t, ev |-> NOTHING]

(*------------------ the automaton of the engaged key -------------------*)
\* <<key, event, stage', phase'>>
Abstract(e) ==
  IF eng = 0 THEN IF e.b > 0 THEN <<e.b, PRESS, "pressed", "down">> ELSE <<0, NOTHING, "none", "none">>
  ELSE LET a == Up(age, e.dt) r == Up(rep, e.dt) IN
       IF phase = "down" /\ e.b = eng THEN
         IF stage = "pressed" /\ a > e.c THEN <<eng, CLICK, "clicked", "down">>
         ELSE IF stage = "clicked" /\ a > e.l THEN <<eng, LONGCLICK, "long", "down">>
         ELSE IF stage = "clicked" /\ r > e.p THEN <<eng, PRESSING, "clicked", "down">>
         ELSE IF stage = "long" /\ r > e.p THEN <<eng, LONGPRESS, "long", "down">>
         ELSE <<eng, NOTHING, stage, "down">>
       ELSE IF phase = "down" THEN
         IF stage = "pressed" THEN <<eng, RELEASE, "none", "none">> ELSE <<eng, NOTHING, stage, "up">>
       ELSE IF e.b = eng THEN <<eng, PRESS, "pressed", "down">>
       ELSE IF a > e.c THEN <<eng, RELEASE, "none", "none">>
       ELSE <<eng, NOTHING, stage, "up">>

Sample(e) ==
  /\ e.op = "sample"
  /\ LET aged == [k \in 1..K |-> [key[k] EXCEPT !.ts = Up(@, e.dt), !.tp = Up(@, e.dt)]]
         sc == Scan(aged, e.b, 1, 0)
         h  == Handle(sc.ks[sc.f], e)
         ab == Abstract(e)
     IN /\ IF sc.f = 0 THEN key' = sc.ks ELSE key' = [sc.ks EXCEPT ![sc.f] = h.s]
        /\ Assert(IF sc.f = 0 THEN ab[1] = 0 ELSE ab[1] = sc.f /\ ab[2] = h.ev,
                  <<"the scan and the automaton disagree", key, e, ab>>)
        /\ eng' = (IF ab[2] = RELEASE \/ ab[1] = 0 THEN 0 ELSE ab[1])
        /\ stage' = ab[3] /\ phase' = ab[4]
        \* age: since PRESS while down, since released while up
        /\ age' = IF ab[2] = PRESS \/ (ab[4] = "up" /\ phase = "down") \/ ab[4] = "none" THEN 0 ELSE Up(age, e.dt)
        /\ rep' = IF ab[2] \in {PRESS, CLICK, PRESSING, LONGCLICK, LONGPRESS} \/ ab[4] = "none" THEN 0 ELSE Up(rep, e.dt)
        /\ Out(e, sc.f, IF sc.f = 0 THEN NOTHING ELSE h.ev)

Step(e) == Reset(e) \/ Silence(e) \/ Sample(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

OneEngaged == /\ Cardinality({k \in 1..K : Pending(key[k])}) <= 1
              /\ \A k \in 1..K : Pending(key[k]) <=> k = eng
Held == \A k \in 1..K : key[k].o = 1 => k = eng /\ phase = "down"
\* a key shows as pressed only if it was sampled pressed when last examined
IsSample == obs'.op.op = "sample"
Ev == obs'.ret[2]
OneAtATime == [][ IsSample /\ eng # 0 /\ Ev # NOTHING => obs'.ret[1] = eng ]_vars
FirstPress == [][ IsSample /\ eng = 0 /\ Ev # NOTHING => Ev = PRESS /\ obs'.ret[1] = obs'.op.b ]_vars
\* PRESS (PRESS | CLICK PRESSING* (LONGCLICK LONGPRESS*)?)* RELEASE
Grammar == [][ IsSample =>
      /\ Ev = CLICK => stage = "pressed"
      /\ Ev = PRESSING => stage = "clicked"
      /\ Ev = LONGCLICK => stage = "clicked"
      /\ Ev = LONGPRESS => stage = "long"
      /\ Ev = RELEASE => eng # 0 /\ eng' = 0
      /\ Ev \in {CLICK, PRESSING, LONGCLICK, LONGPRESS} => obs'.op.b = eng ]_vars
===========================================================================
