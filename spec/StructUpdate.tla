--------------------------- MODULE StructUpdate -------------------------
(***************************************************************************)
(* gel/data_structures/struct_update (property C26), byte by byte.         *)
(* src: the source values, as the bytes of one structure (Size of them);   *)
(* inst: the instances updates are applied to; up: the updates, each <<>>  *)
(* (free) or <<offset, bytes>>.  A field f has offset Off[f] and size      *)
(* Len_[f]; an array field has elements of Elem[f] bytes.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, Size, Insts, Ups, Off, Len_, Elem
VARIABLES src, inst, up, obs
vars == <<src, inst, up, obs>>
View == <<src, inst, up>>
Blank(x) == [i \in 1..Size |-> x]
Init == src = Blank(0) /\ inst = [i \in 1..Insts |-> Blank(100 + i)] /\ up = [i \in 1..Ups |-> <<>>] /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ src' = Blank(0) /\ inst' = [i \in 1..Insts |-> Blank(100 + i)] /\ up' = [i \in 1..Ups |-> <<>>] /\ obs' = [op |-> e, ret |-> 0]
\* <<instances, source, updates (an empty one has no place), guard bytes modified>>
Out(e) == obs' = [op |-> e, ret |-> <<inst', src', [k \in 1..Ups |-> IF up'[k] # <<>> /\ up'[k][2] = <<>> THEN <<-1, <<>>>> ELSE up'[k]], 0>>]

\* the source changes (several bytes from i on)
Poke(e) == e.op = "poke" /\ src' = [k \in 1..Size |-> IF k > e.i /\ k <= e.i + Len(e.b) THEN e.b[k - e.i] ELSE src[k]] /\ UNCHANGED <<inst, up>> /\ Out(e)
\* an update of a whole field (macro), or of n elements of an array field, or of raw bytes
New(e, off, n) == up[e.u] = <<>> /\ up' = [up EXCEPT ![e.u] = <<off, SubSeq(src, off + 1, off + n)>>] /\ UNCHANGED <<src, inst>> /\ Out(e)
Field(e) == e.op = "field" /\ New(e, Off[e.f], Len_[e.f])
Arr(e) == e.op = "array" /\ e.n * Elem[e.f] <= Len_[e.f] /\ New(e, Off[e.f], e.n * Elem[e.f])
\* a number of any type given for an integer field: converted to the field's type (two's complement, least significant
\* byte first), and computed once
Byte(v, k) == IF k <= 3 THEN (v \div 256 ^ (k - 1)) % 256 ELSE IF k = 4 THEN (v \div 16777216) % 256 ELSE IF v < 0 THEN 255 ELSE 0
Conv(e) == /\ e.op = "conv" /\ up[e.u] = <<>> /\ up' = [up EXCEPT ![e.u] = <<Off[e.f], [k \in 1..Len_[e.f] |-> Byte(e.v, k)]>>]
           /\ UNCHANGED <<src, inst>> /\ Out(e)
\* from address e.at of the source to offset e.off of the target
Raw(e) == /\ e.op = "raw" /\ e.off + e.n <= Size /\ e.at + e.n <= Size /\ up[e.u] = <<>>
          /\ up' = [up EXCEPT ![e.u] = <<e.off, SubSeq(src, e.at + 1, e.at + e.n)>>] /\ UNCHANGED <<src, inst>> /\ Out(e)
Apply(e) == /\ e.op = "apply" /\ up[e.u] # <<>> /\ UNCHANGED <<src, up>>
            /\ inst' = [inst EXCEPT ![e.i] = [k \in 1..Size |-> LET o == up[e.u][1] b == up[e.u][2] IN IF k > o /\ k <= o + Len(b) THEN b[k - o] ELSE @[k]]]
            /\ Out(e)
\* updates are values: a copy denotes the same encoding (the harness frees only one of them)
Free(e) == e.op = "free" /\ up[e.u] # <<>> /\ up' = [up EXCEPT ![e.u] = <<>>] /\ UNCHANGED <<src, inst>> /\ Out(e)
Step(e) == Reset(e) \/ Poke(e) \/ Field(e) \/ Arr(e) \/ Conv(e) \/ Raw(e) \/ Apply(e) \/ Free(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
E == obs'.op
Snapshot == [][ (E.op \in {"poke", "apply"} => up' = up) /\ (E.op \in {"field", "array", "conv", "raw", "free"} => \A k \in 1..Ups : (k # E.u => up'[k] = up[k])) ]_vars
OnlyField == [][ E.op = "apply" => /\ \A k \in 1..Insts : (k # E.i => inst'[k] = inst[k])
                                   /\ \A k \in 1..Size : ((k <= up[E.u][1] \/ k > up[E.u][1] + Len(up[E.u][2])) => inst'[E.i][k] = inst[E.i][k])
                                   /\ SubSeq(inst'[E.i], up[E.u][1] + 1, up[E.u][1] + Len(up[E.u][2])) = up[E.u][2] ]_vars
OnlyApply == [][ ~(E.op \in {"apply", "reset"}) => inst' = inst ]_vars
===========================================================================
