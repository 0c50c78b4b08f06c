----------------------------- MODULE Debounce ---------------------------
(***************************************************************************)
(* gel/debounce/debounce.c and pulsecounter.c (properties C09, C10).       *)
(* Concrete: level and countdown per input.  Ghost: run, the number of     *)
(* consecutive samples that differed from the level.                       *)
(* Kind "debounce" or "pulse"; d is the (constant) debounce value in force *)
(* since the last initialisation.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ops, NI, Kind

VARIABLES on, d, type, level, cnt, run, count, obs
vars == <<on, d, type, level, cnt, run, count, obs>>
View == <<on, d, type, level, cnt, count>>

I == 1..NI
Zero == [i \in I |-> 0]

Init == /\ on = FALSE /\ d = 0 /\ type = "high" /\ level = Zero /\ cnt = Zero /\ run = Zero /\ count = Zero
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]

\* debounce: changed inputs and levels; pulse: whether a count increased, levels and counts
Out(e, c) == obs' = [op |-> e, ret |-> IF Kind = "debounce" THEN [c |-> c, l |-> level']
                                       ELSE [c |-> IF \E i \in I : count'[i] # count[i] /\ e.op = "filter" THEN 1 ELSE 0,
                                             l |-> level', n |-> count']]

Reset(e) == /\ e.op = "reset" /\ on' = FALSE /\ d' = 0 /\ type' = "high" /\ level' = Zero /\ cnt' = Zero /\ run' = Zero /\ count' = Zero
            /\ obs' = [op |-> e, ret |-> 0]

\* one sample of one input: [level, countdown, changed]
Sample(lv, c, v) == IF v = lv THEN <<lv, 0, 0>>
                    ELSE LET c2 == IF c > 0 THEN c - 1 ELSE d
                         IN IF c2 = 0 THEN <<v, 0, 1>> ELSE <<lv, c2, 0>>
NewRun(r, lv, v) == IF v = lv \/ r = d THEN 0 ELSE r + 1

Start(e) == /\ e.op = "init"
            /\ on' = TRUE /\ d' = e.d /\ cnt' = Zero /\ run' = Zero /\ count' = Zero
            /\ type' = IF Kind = "pulse" THEN e.type ELSE type
            /\ level' = IF Kind = "pulse" THEN e.l ELSE Zero
            /\ Out(e, Zero)

\* set the levels: pending changes are forgotten
Set(e) == /\ e.op = "set" /\ on /\ Kind = "debounce"
          /\ level' = e.l /\ cnt' = Zero /\ run' = Zero /\ d' = e.d /\ UNCHANGED <<on, type, count>>
          /\ Out(e, Zero)

Pulse(lv, v) == IF type = "high" THEN lv = 1 /\ v = 0 ELSE lv = 0 /\ v = 1

Filter(e) == /\ e.op = "filter" /\ on
             /\ LET s == [i \in I |-> Sample(level[i], cnt[i], e.in[i])]
                IN  /\ level' = [i \in I |-> s[i][1]]
                    /\ cnt' = [i \in I |-> s[i][2]]
                    /\ run' = [i \in I |-> NewRun(run[i], level[i], e.in[i])]
                    /\ count' = [i \in I |-> IF Kind = "pulse" /\ s[i][3] = 1 /\ Pulse(level[i], e.in[i]) THEN count[i] + 1 ELSE count[i]]
                    /\ UNCHANGED <<on, d, type>>
                    /\ Out(e, [i \in I |-> s[i][3]])

\* one sample of a single input; the others are untouched
Single(e) == /\ e.op = "single" /\ on /\ Kind = "debounce"
             /\ LET s == Sample(level[e.i], cnt[e.i], e.v)
                IN  /\ level' = [level EXCEPT ![e.i] = s[1]]
                    /\ cnt' = [cnt EXCEPT ![e.i] = s[2]]
                    /\ run' = [run EXCEPT ![e.i] = NewRun(@, level[e.i], e.v)]
                    /\ UNCHANGED <<on, d, type, count>>
                    /\ Out(e, [i \in I |-> IF i = e.i THEN s[3] ELSE 0])

\* the same sample, k times: input i changes at call At(i) (0: not at all), when d+1 differing samples are complete
At(lv, c, v, k) == LET left == IF c > 0 THEN c ELSE d + 1 IN IF v = lv \/ k < left THEN 0 ELSE left
Hold(e) == /\ e.op = "hold" /\ on
           /\ LET at == [i \in I |-> At(level[i], cnt[i], e.in[i], e.k)]
                  pulse(i) == at[i] > 0 /\ Pulse(level[i], e.in[i])
              IN  /\ level' = [i \in I |-> IF at[i] > 0 THEN e.in[i] ELSE level[i]]
                  /\ run' = [i \in I |-> IF e.in[i] = level[i] \/ at[i] > 0 THEN IF e.k = 0 THEN run[i] ELSE 0 ELSE run[i] + e.k]
                  /\ cnt' = [i \in I |-> IF e.k = 0 THEN cnt[i] ELSE IF run'[i] = 0 THEN 0 ELSE d + 1 - run'[i]]
                  /\ count' = [i \in I |-> IF Kind = "pulse" /\ pulse(i) THEN count[i] + 1 ELSE count[i]]
                  /\ UNCHANGED <<on, d, type>>
                  /\ obs' = [op |-> e, ret |-> IF Kind = "debounce" THEN [c |-> at, l |-> level']
                                               ELSE [c |-> Cardinality({at[i] : i \in {j \in I : pulse(j)}}), l |-> level', n |-> count']]

\* k full pulses on the inputs e.in, from whatever state: d+1 samples with them high, then d+1 with all inputs low
Train(e) == /\ e.op = "train" /\ on /\ Kind = "pulse" /\ e.k > 0
            /\ LET up   == [i \in I |-> At(level[i], cnt[i], e.in[i], d + 1)]
                   mid  == e.in    \* the levels after the first half: d+1 samples suffice
                   c1   == {i \in I : up[i] > 0 /\ Pulse(level[i], e.in[i])}
                   c2   == {i \in I : mid[i] = 1 /\ Pulse(1, 0)}
                   more == {i \in I : e.in[i] = 1}
               IN  /\ level' = Zero /\ cnt' = Zero /\ run' = Zero
                   /\ count' = [i \in I |-> count[i] + (IF i \in c1 THEN 1 ELSE 0) + (IF i \in c2 THEN 1 ELSE 0) + (IF i \in more THEN e.k - 1 ELSE 0)]
                   /\ UNCHANGED <<on, d, type>>
                   /\ obs' = [op |-> e, ret |-> [c |-> Cardinality({up[i] : i \in c1}) + (IF c2 = {} THEN 0 ELSE 1) + (IF more = {} THEN 0 ELSE e.k - 1),
                                                 l |-> level', n |-> count']]

Clear(e) == /\ e.op = "clear" /\ on /\ Kind = "pulse"
            /\ count' = [count EXCEPT ![e.i] = 0]
            /\ UNCHANGED <<on, d, type, level, cnt, run>>
            /\ Out(e, Zero)

\* indices out of range: reads give -1, clears are ignored (the harness queries them; one flag in the result)
Outside(e) == /\ e.op = "outside" /\ on /\ UNCHANGED <<on, d, type, level, cnt, run, count>>
              /\ obs' = [op |-> e, ret |-> -1]

Step(e) == Reset(e) \/ Start(e) \/ Set(e) \/ Filter(e) \/ Hold(e) \/ Train(e) \/ Single(e) \/ Clear(e) \/ Outside(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

\* the countdown realises "d+1 consecutive differing samples"
Countdown == \A i \in I : /\ run[i] \in 0..d
                          /\ cnt[i] = IF run[i] = 0 THEN 0 ELSE d + 1 - run[i]
ChangeExactly == [][ obs'.op.op \in {"filter"} =>
                     \A i \in I : level'[i] # level[i] <=> (obs'.op.in[i] # level[i] /\ run[i] = d) ]_vars
CountExactly == [][ obs'.op.op = "filter" /\ Kind = "pulse" =>
                    \A i \in I : count'[i] = count[i] + (IF level'[i] # level[i] /\ (level'[i] = 0) = (type = "high") THEN 1 ELSE 0) ]_vars
===========================================================================
