------------------------------ MODULE Maybe -----------------------------
(***************************************************************************)
(* gel/data_structures/maybe (property C27): R registers holding optional  *)
(* values.  The functions mapped and bound are a fixed family over 0..V-1; *)
(* every step reports how often the function was called and with what.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, R, V
VARIABLES r, obs
vars == <<r, obs>>
View == r
Nothing == <<>>
Init == r = [i \in 1..R |-> Nothing] /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ r' = [i \in 1..R |-> Nothing] /\ obs' = [op |-> e, ret |-> 0]

MapF(f, x) == CASE f = "inc" -> (x + 1) % V [] f = "zero" -> 0 [] f = "same" -> x [] f = "neg" -> V - 1 - x
BindF(f, x) == CASE f = "ret" -> <<x>> [] f = "none" -> Nothing [] f = "half" -> IF x % 2 = 0 THEN <<x \div 2>> ELSE Nothing
                 [] f = "succ" -> IF x = V - 1 THEN Nothing ELSE <<x + 1>>
\* <<result, arguments the function was called with, all registers>>
Out(e, v, calls) == obs' = [op |-> e, ret |-> <<v, calls, r'>>]
Ret(e) == e.op = "ret" /\ r' = [r EXCEPT ![e.i] = <<e.v>>] /\ Out(e, 0, <<>>)
Noth(e) == e.op = "nothing" /\ r' = [r EXCEPT ![e.i] = Nothing] /\ Out(e, 0, <<>>)     \* function, or (e.m = 1) the initialiser macro
Copy(e) == e.op = "copy" /\ r' = [r EXCEPT ![e.j] = r[e.i]] /\ Out(e, 0, <<>>)
Map(e) == e.op = "map" /\ r' = [r EXCEPT ![e.j] = IF r[e.i] = Nothing THEN Nothing ELSE <<MapF(e.f, r[e.i][1])>>] /\ Out(e, 0, r[e.i])
Bind(e) == e.op = "bind" /\ r' = [r EXCEPT ![e.j] = IF r[e.i] = Nothing THEN Nothing ELSE BindF(e.f, r[e.i][1])] /\ Out(e, 0, r[e.i])
Is(e) == e.op = "is" /\ UNCHANGED r /\ Out(e, Len(r[e.i]), <<>>)
Default(e) == e.op = "default" /\ UNCHANGED r /\ Out(e, IF r[e.i] = Nothing THEN e.v ELSE r[e.i][1], <<>>)
Step(e) == Reset(e) \/ Ret(e) \/ Noth(e) \/ Copy(e) \/ Map(e) \/ Bind(e) \/ Is(e) \/ Default(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*--------------------------- the laws, over 0..V-1 ---------------------*)
MapFs == {"inc", "zero", "same", "neg"}
BindFs == {"ret", "none", "half", "succ"}
MapM(f, m) == IF m = Nothing THEN Nothing ELSE <<MapF(f, m[1])>>
BindM(f, m) == IF m = Nothing THEN Nothing ELSE BindF(f, m[1])
Laws == \A i \in 1..R : LET m == r[i] IN
          /\ MapM("same", m) = m /\ BindM("ret", m) = m
          /\ \A f \in BindFs, g \in BindFs : BindM(g, BindM(f, m)) = (IF m = Nothing THEN Nothing ELSE BindM(g, BindF(f, m[1])))
          /\ \A f \in MapFs, g \in MapFs : MapM(g, MapM(f, m)) = (IF m = Nothing THEN Nothing ELSE <<MapF(g, MapF(f, m[1]))>>)
Op == obs'.op.op
CallsOnce == [][ IF Op \in {"map", "bind"} THEN obs'.ret[2] = r[obs'.op.i] ELSE (Op = "reset" \/ obs'.ret[2] = <<>>) ]_vars
===========================================================================
