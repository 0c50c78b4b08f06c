---------------------------- MODULE ParamTable --------------------------
(***************************************************************************)
(* gel/parameter: tables of parameters (property C17).  Values are ranks;  *)
(* a replay maps them monotonically into the type of each entry.  An entry *)
(* with rt = 1 has a runtime callback that installs the level and maximum  *)
(* of the moment (rlvl, rmax); level and maximum as last installed are lvl *)
(* and max.  Access levels and masks are sets of bits.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ops, Def, RT      \* per entry: default rank, has a runtime callback (0/1)
VARIABLES t, obs
vars == <<t, obs>>
N == Len(Def)
View == t
Fresh == [i \in 1..N |-> [val |-> Def[i], lvl |-> {}, min |-> 0, max |-> Def[i], rlvl |-> {}, rmax |-> Def[i]]]
Init == t = Fresh /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ t' = Fresh /\ obs' = [op |-> e, ret |-> 0]

Values(x) == [i \in 1..N |-> x[i].val]
\* <<result, all values, callbacks with a wrong handle or argument or foreign bytes modified>>
Out(e, r) == obs' = [op |-> e, ret |-> <<r, Values(t'), 0>>]
Bits(s) == {s[i] : i \in 1..Len(s)}
Run(x) == [x EXCEPT !.lvl = x.rlvl, !.max = x.rmax]
\* the callbacks of entries 1..k have run
RunTo(x, k) == [i \in 1..N |-> IF i <= k /\ RT[i] = 1 THEN Run(x[i]) ELSE x[i]]
Acc(x, mask) == x.lvl = {} \/ (x.lvl \cap mask) # {}

Set(e) == e.op = "set" /\ t' = [t EXCEPT ![e.i].val = e.v] /\ Out(e, 0)
SetAll(e) == e.op = "setall" /\ t' = [i \in 1..N |-> [t[i] EXCEPT !.val = e.v]] /\ Out(e, 0)
\* level and limits of an entry: directly, or what its callback will install
Conf(e) == /\ e.op = "conf"
           /\ t' = [t EXCEPT ![e.i] = IF RT[e.i] = 1 THEN [@ EXCEPT !.rlvl = Bits(e.lvl), !.rmax = e.max, !.min = e.min]
                                      ELSE [@ EXCEPT !.lvl = Bits(e.lvl), !.max = e.max, !.min = e.min]]
           /\ Out(e, 0)
Count(e) == /\ e.op = "count" /\ t' = RunTo(t, N)
            /\ Out(e, Cardinality({i \in 1..N : Acc(t'[i], Bits(e.m))}))
\* index of the n-th (from 0) accessible entry at or after i, 0 if there are fewer
RECURSIVE Nth(_, _, _, _)
Nth(x, mask, n, i) == IF i > N THEN 0
                      ELSE IF ~Acc(x[i], mask) THEN Nth(x, mask, n, i + 1)
                      ELSE IF n = 0 THEN i ELSE Nth(x, mask, n - 1, i + 1)
Get(e) == /\ e.op = "get" /\ e.n < N
          /\ LET f == Nth(RunTo(t, N), Bits(e.m), e.n, 1)
             IN t' = RunTo(t, IF f = 0 THEN N ELSE f) /\ Out(e, f)
Defaults(e) == /\ e.op = "defaults"
               /\ t' = [i \in 1..N |-> [RunTo(t, N)[i] EXCEPT !.val = Def[i]]] /\ Out(e, 0)
Check(e) == /\ e.op = "check"
            /\ LET r == RunTo(t, N)
                   bad == {i \in 1..N : r[i].val < r[i].min \/ r[i].val > r[i].max}
               IN t' = [i \in 1..N |-> IF i \in bad THEN [r[i] EXCEPT !.val = Def[i]] ELSE r[i]] /\ Out(e, Cardinality(bad))

Step(e) == Reset(e) \/ Set(e) \/ SetAll(e) \/ Conf(e) \/ Count(e) \/ Get(e) \/ Defaults(e) \/ Check(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
Op == obs'.op.op
\* what a table search returns is accessible, and preceded by exactly n accessible entries
Found == [][ Op = "get" /\ obs'.ret[1] # 0 /\ N < 20 =>
               LET f == obs'.ret[1]
                   m == Bits(obs'.op.m)
               IN Acc(t'[f], m) /\ Cardinality({j \in 1..f-1 : Acc(t'[j], m)}) = obs'.op.n ]_vars
ReadsOnly == [][ (Op \in {"count", "get", "conf"} => Values(t') = Values(t)) ]_vars
\* what was in the limits of the moment is never touched by the range check
Repaired == [][ Op = "check" => \A i \in 1..N : t'[i].val \in {t[i].val, Def[i]} ]_vars
===========================================================================
