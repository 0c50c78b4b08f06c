---------------------------- MODULE Serializer --------------------------
(***************************************************************************)
(* gel/serializer (property C23): a buffer of bytes written and read at    *)
(* any position.  Values are byte sequences, least significant first, so   *)
(* that all widths are alike; a kind is <<width in bytes, "le"/"be",       *)
(* signed (0/1)>>.  A signed value carries its sign separately, too.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, Size
VARIABLES buf, last, obs
vars == <<buf, last, obs>>
View == <<buf, last>>
Fill == [i \in 1..Size |-> 170]
Init == buf = Fill /\ last = <<>> /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ buf' = Fill /\ last' = <<>> /\ obs' = [op |-> e, ret |-> 0]

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Enc(v, o) == IF o = "le" THEN v ELSE Rev(v)
Over(b, at, s) == [i \in 1..Size |-> IF i > at /\ i <= at + Len(s) THEN s[i - at] ELSE b[i]]
Sign(v) == IF v[Len(v)] >= 128 THEN 1 ELSE 0

\* <<bytes reported, value, negative, the whole buffer>>
Out(e, n, v, s) == obs' = [op |-> e, ret |-> <<n, v, s, buf'>>]
\* encode value v at position e.at (from 0); e.m: by function ("f") or by macro ("m"), the same
Put(e) == /\ e.op = "put" /\ e.at + Len(e.v) <= Size
          /\ buf' = Over(buf, e.at, Enc(e.v, e.o)) /\ last' = <<e.at, e.o, e.v>>
          /\ Out(e, Len(e.v), <<>>, 0)
\* decode e.w bytes; e.s: as a signed value
Get(e) == /\ e.op = "get" /\ e.at + e.w <= Size /\ UNCHANGED buf /\ last' = <<>>
          /\ LET v == Enc(SubSeq(buf, e.at + 1, e.at + e.w), e.o) IN Out(e, e.w, v, IF e.s = 1 THEN Sign(v) ELSE 0)
\* set raw bytes
Raw(e) == e.op = "raw" /\ e.at + Len(e.b) <= Size /\ buf' = Over(buf, e.at, e.b) /\ last' = <<>> /\ Out(e, 0, <<>>, 0)
\* all 256 values of the low byte in turn: for each, the encoded bytes, and what they decode to
Sweep(e) == /\ e.op = "sweep" /\ UNCHANGED <<buf, last>>
            /\ obs' = [op |-> e, ret |-> [x \in 1..256 |-> LET v == IF e.k = 0 THEN <<x - 1, e.h>> ELSE <<e.h, x - 1>> IN <<Enc(v, e.o), v, Sign(v)>>]]
Step(e) == Reset(e) \/ Put(e) \/ Get(e) \/ Raw(e) \/ Sweep(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
E == obs'.op
\* reading back what was last written, with the same width and order, gives the value
RoundTrip == [][ (E.op = "get" /\ last # <<>>) => ((last[1] = E.at /\ last[2] = E.o /\ Len(last[3]) = E.w) => obs'.ret[2] = last[3]) ]_vars
\* the other order gives the bytes reversed
OtherOrder == [][ (E.op = "get" /\ last # <<>>) => ((last[1] = E.at /\ last[2] # E.o /\ Len(last[3]) = E.w) => obs'.ret[2] = Rev(last[3])) ]_vars
NoOther == [][ E.op = "put" => \A i \in 1..Size : (i <= E.at \/ i > E.at + Len(E.v)) => buf'[i] = buf[i] ]_vars
===========================================================================
