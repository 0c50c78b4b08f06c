---------------------------- MODULE ParamStep ---------------------------
(***************************************************************************)
(* gel/parameter: one parameter being stepped (property C16).  Numbers are *)
(* model integers; a replay maps them to off + x * unit of the real type.  *)
(* Lo..Hi is the range of the type in model numbers; Wrap says that an     *)
(* exact result outside is reduced modulo the type (unsigned, 8 and 16     *)
(* bit types), otherwise such steps are outside the property.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, Lo, Hi, Wrap
VARIABLES p, obs      \* p: <<>> or the declared parameter
vars == <<p, obs>>
View == p
None == <<>>
Init == p = None /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ p' = None /\ obs' = [op |-> e, ret |-> 0]

InType(x) == x >= Lo /\ x <= Hi
\* the limits in force: a pointed-to limit takes precedence
Min(q) == IF q.hasmin = 1 THEN q.pmin ELSE q.min
Max(q) == IF q.hasmax = 1 THEN q.pmax ELSE q.max
\* <<code, value, limits in force read back by the caller, foreign bytes modified>>
Out(e, code, q) == obs' = [op |-> e, ret |-> <<code, q.val, 0>>]

\* flav: which declaration macro (irrelevant to the meaning)
Decl(e) ==
  /\ e.op = "decl"
  /\ LET q == [min |-> e.min, max |-> e.max, def |-> e.def, step |-> e.step, hasmin |-> e.hasmin, hasmax |-> e.hasmax,
               pmin |-> e.pmin, pmax |-> e.pmax, val |-> e.val]
     IN p' = q /\ Out(e, 0, q)
Set(e) == e.op = "set" /\ p # None /\ InType(e.v) /\ p' = [p EXCEPT !.val = e.v] /\ Out(e, 0, p')
\* the pointed-to limits change (only matters where they are in force)
SetLim(e) == /\ e.op = "setlim" /\ p # None /\ InType(e.min) /\ InType(e.max)
             /\ p' = [p EXCEPT !.pmin = e.min, !.pmax = e.max] /\ Out(e, 0, p')

M == Hi - Lo + 1
StepP(e) ==
  /\ e.op = "step" /\ p # None
  /\ LET exact == p.val + p.step * e.mod
         r == IF InType(exact) THEN exact ELSE ((exact - Lo) % M) + Lo
         in == r >= Min(p) /\ r <= Max(p)
     IN /\ InType(exact) \/ Wrap
        /\ p' = [p EXCEPT !.val = IF in \/ e.mod = 0 THEN r ELSE IF e.mod > 0 THEN Min(p) ELSE Max(p)]
        /\ Out(e, 0, p')
\* no parameter at all
Null(e) == e.op = "null" /\ p # None /\ p' = p /\ obs' = [op |-> e, ret |-> <<-1, p.val, 0>>]
Dflt(e) == e.op = "dflt" /\ p # None /\ p' = [p EXCEPT !.val = p.def] /\ Out(e, 0, p')
Check(e) == /\ e.op = "check" /\ p # None
            /\ LET in == p.val >= Min(p) /\ p.val <= Max(p)
               IN p' = [p EXCEPT !.val = IF in THEN @ ELSE p.def] /\ Out(e, IF in THEN 0 ELSE 1, p')

Step(e) == Reset(e) \/ Decl(e) \/ Set(e) \/ SetLim(e) \/ StepP(e) \/ Null(e) \/ Dflt(e) \/ Check(e)
\* exhaustive checking declares once per history
Next == \E e \in Ops : (e.op = "decl" => p = None) /\ Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
Stepping == obs'.op.op = "step"
Range == p # None => InType(p.val)
\* min <= max: a step by a non-zero multiple always ends in the limits in force
NeverLeaves == [][ Stepping /\ obs'.op.mod # 0 /\ Min(p) <= Max(p) => p'.val >= Min(p) /\ p'.val <= Max(p) ]_vars
Exact == [][ Stepping /\ InType(p.val + p.step * obs'.op.mod) /\ Min(p) <= p.val + p.step * obs'.op.mod /\ p.val + p.step * obs'.op.mod <= Max(p)
             => p'.val = p.val + p.step * obs'.op.mod ]_vars
===========================================================================
