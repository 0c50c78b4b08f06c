---------------------------- MODULE ParamConv ---------------------------
(***************************************************************************)
(* gel/parameter: conversions and copies (property C18).  Values are       *)
(* two's complement words of bytes, least significant first.  Two          *)
(* parameters, each with its own type: n bytes, sg = 1 if signed, 2 for    *)
(* floating point (copied, not converted).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops
VARIABLES a, b, obs
vars == <<a, b, obs>>
View == <<a, b>>
Zero8 == [i \in 1..8 |-> 0]
Fresh == [n |-> 1, sg |-> 0, v |-> <<0>>, lo |-> <<0>>, hi |-> <<255>>]
Init == a = Fresh /\ b = Fresh /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ a' = Fresh /\ b' = Fresh /\ obs' = [op |-> e, ret |-> 0]

\* extension to 8 bytes
Neg(x, sg) == sg = 1 /\ x[Len(x)] >= 128
Ext(x, sg) == [i \in 1..8 |-> IF i <= Len(x) THEN x[i] ELSE IF Neg(x, sg) THEN 255 ELSE 0]
\* 8 byte addition of x, y (or its complement) and a carry
RECURSIVE Sum(_, _, _, _)
Sum(x, y, c, i) == IF i > 8 THEN <<>> ELSE LET s == x[i] + y[i] + c IN <<s % 256>> \o Sum(x, y, s \div 256, i + 1)
Not(x) == [i \in 1..8 |-> 255 - x[i]]
\* max - min + 1 = max + not(min) + 1 + 1 (modulo 2^64)
Total(q) == Sum(Sum(Ext(q.hi, q.sg), Not(Ext(q.lo, q.sg)), 1, 1), Zero8, 1, 1)
AllValues(q) == Total(q) = Zero8      \* 2^64 values: no answer prescribed
One == [i \in 1..8 |-> IF i = 1 THEN 1 ELSE 0]

Load(e) == /\ e.op = "load"
           /\ LET q == [n |-> e.n, sg |-> e.sg, v |-> e.v, lo |-> e.lo, hi |-> e.hi]
              IN IF e.w = 1 THEN a' = q /\ UNCHANGED b ELSE b' = q /\ UNCHANGED a
           /\ obs' = [op |-> e, ret |-> <<0, a'.v, b'.v, 0>>]
\* <<to_long, to_index (if not negative), to_bool, number of values>> of a
Conv(e) == /\ e.op = "conv" /\ a.sg # 2 /\ UNCHANGED <<a, b>>
           /\ LET x == Ext(a.v, a.sg)
                  inlong == ~(a.n = 8 /\ a.sg = 0 /\ a.v[8] >= 128)
              IN obs' = [op |-> e, ret |-> << IF inlong THEN x ELSE Zero8, IF Neg(a.v, a.sg) THEN Zero8 ELSE x,
                                              IF a.v = [i \in 1..a.n |-> 0] THEN 0 ELSE 1,
                                              IF AllValues(a) THEN Zero8 ELSE Total(a), a.v, b.v, 0>>]
Null(e) == e.op = "null" /\ UNCHANGED <<a, b>> /\ obs' = [op |-> e, ret |-> <<Zero8, Zero8, 0, Zero8, a.v, b.v, 0>>]
\* decimal text: the magnitude, most significant byte first, divided by ten until nothing is left
Magnitude(q) == IF Neg(q.v, q.sg) THEN Sum(Not(Ext(q.v, 1)), Zero8, 1, 1) ELSE Ext(q.v, q.sg)
RECURSIVE DivTen(_, _, _)
DivTen(x, r, i) == IF i = 0 THEN <<<<>>, r>>
                   ELSE LET c == r * 256 + x[i]
                            t == DivTen(x, c % 10, i - 1)
                        IN <<Append(t[1], c \div 10), t[2]>>
RECURSIVE Digits(_)
Digits(x) == LET d == DivTen(x, 0, 8) IN IF d[1] = Zero8 THEN <<48 + d[2]>> ELSE Append(Digits(d[1]), 48 + d[2])
Decimal(q) == (IF Neg(q.v, q.sg) THEN <<45>> ELSE <<>>) \o Digits(Magnitude(q))
\* infinities and not-a-numbers have no exact text
Finite(q) == IF q.n = 4 THEN q.v[4] % 128 # 127 \/ q.v[3] < 128 ELSE q.v[8] % 128 # 127 \/ q.v[7] < 240
\* the parameter rendered by <, the matching conversion, >; of a floating point one: the bytes its hexadecimal text denotes
Text(e) == /\ e.op = "text" /\ UNCHANGED <<a, b>>
           /\ obs' = [op |-> e, ret |-> <<IF a.sg # 2 THEN <<60>> \o Decimal(a) \o <<62>> ELSE IF Finite(a) THEN a.v ELSE <<>>, a.v, b.v, 0>>]
TextNull(e) == e.op = "textnull" /\ UNCHANGED <<a, b>> /\ obs' = [op |-> e, ret |-> <<<<>>, a.v, b.v, 0>>]
SameType == a.n = b.n /\ a.sg = b.sg
\* b takes the value of a
Copy(e) == /\ e.op = "copy" /\ UNCHANGED a
           /\ b' = (IF SameType THEN [b EXCEPT !.v = a.v] ELSE b)
           /\ obs' = [op |-> e, ret |-> <<IF SameType THEN 0 ELSE -1, a'.v, b'.v, 0>>]
\* b becomes a copy of a with storage of its own (two ways to make one)
Clone(e) == /\ e.op \in {"clone", "clonebuf"} /\ UNCHANGED a /\ b' = a
            /\ obs' = [op |-> e, ret |-> <<0, a'.v, b'.v, 0>>]
\* nothing happens without a source, a destination or storage
CopyNull(e) == e.op = "copynull" /\ UNCHANGED <<a, b>> /\ obs' = [op |-> e, ret |-> <<-1, a.v, b.v, 0>>]
\* the parameters are independent: writing one leaves the other alone
Put(e) == /\ e.op = "put"
          /\ IF e.w = 1 THEN a' = [a EXCEPT !.v = [i \in 1..a.n |-> e.v[i]]] /\ UNCHANGED b
             ELSE b' = [b EXCEPT !.v = [i \in 1..b.n |-> e.v[i]]] /\ UNCHANGED a
          /\ obs' = [op |-> e, ret |-> <<0, a'.v, b'.v, 0>>]

Step(e) == Reset(e) \/ Load(e) \/ Conv(e) \/ Text(e) \/ TextNull(e) \/ Null(e) \/ Copy(e) \/ Clone(e) \/ CopyNull(e) \/ Put(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars
Op == obs'.op.op
SourceKept == [][ (Op \in {"conv", "text", "textnull", "copy", "clone", "clonebuf", "copynull", "null"} => a' = a) ]_vars
TypesKept == [][ (Op \in {"copy", "put"} => b'.n = b.n /\ b'.sg = b.sg) ]_vars
===========================================================================
