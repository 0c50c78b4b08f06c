------------------------------- MODULE Crc ------------------------------
(***************************************************************************)
(* gel/crc (property C24).  Ideal: the remainder of long division of the   *)
(* bit string (initial value added to the first W bits, W zeros appended)  *)
(* by the polynomial.  Concrete: a register updated one byte at a time     *)
(* through a table, which is derived here from the polynomial.  The        *)
(* register is a sequence of bytes, most significant first (W = 8 * Wid).  *)
(* msg is the whole message since init, kept only while it is short (Keep) *)
(* so that the division law can be checked in every state.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
CONSTANTS Ops, Poly, Keep     \* Poly: the polynomial without its top bit, as bytes
VARIABLES reg, ini, msg, obs
vars == <<reg, ini, msg, obs>>
View == <<reg, ini, msg>>
Wid == Len(Poly)
W == 8 * Wid
Zero == [i \in 1..Wid |-> 0]
Init == reg = Zero /\ ini = Zero /\ msg = <<>> /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ reg' = Zero /\ ini' = Zero /\ msg' = <<>> /\ obs' = [op |-> e, ret |-> 0]

(*------------------------------ bits and bytes -------------------------*)
Bit(b, k) == (b \div 2 ^ (7 - k)) % 2               \* k from 0, most significant first
Bits(s) == [i \in 1..8 * Len(s) |-> Bit(s[1 + (i - 1) \div 8], (i - 1) % 8)]
Xor2(a, b) == (a + b) % 2
PolyBits == Bits(Poly)
Byte(b, i) == b[i] * 128 + b[i+1] * 64 + b[i+2] * 32 + b[i+3] * 16 + b[i+4] * 8 + b[i+5] * 4 + b[i+6] * 2 + b[i+7]
Bytes(b) == [i \in 1..Len(b) \div 8 |-> Byte(b, 8 * i - 7)]

(*------------------------------- the ideal -----------------------------*)
RECURSIVE Divide(_, _)
\* long division: cancel the leading ones of bits i.. by the polynomial, leaving the last W bits
Divide(b, i) == IF i > Len(b) - W THEN SubSeq(b, Len(b) - W + 1, Len(b))
                ELSE IF b[i] = 0 THEN Divide(b, i + 1)
                ELSE Divide([j \in 1..Len(b) |-> IF j = i THEN 0 ELSE IF j > i /\ j <= i + W THEN Xor2(b[j], PolyBits[j - i]) ELSE b[j]], i + 1)
Remainder(in, m) == LET b == Bits(m) \o [i \in 1..W |-> 0]
                        n == Bits(in)
                    IN Bytes(Divide([j \in 1..Len(b) |-> IF j <= W THEN Xor2(b[j], n[j]) ELSE b[j]], 1))

(*------------------------------ the register ---------------------------*)
Table == [x \in 0..255 |-> Bytes(Divide(Bits(<<x>>) \o [i \in 1..W |-> 0], 1))]
XorS(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Eat(r, x) == XorS(Append(Tail(r), 0), Table[Head(r) ^^ x])
Feed(r, m) == FoldLeft(Eat, r, m)
\* bytes i..j of a long pseudo-random block (a, b)
Gen(a, b, i) == (a * i + b * (i \div 251) + (i \div 65536) * 7) % 256
FeedGen(r, a, b, i, j) == FoldLeft(Eat, r, [x \in 1..(j - i + 1) |-> Gen(a, b, i + x - 1)])

\* <<checksum, bytes of the input changed>>
Out(e) == obs' = [op |-> e, ret |-> <<reg', 0>>]
Start(e) == e.op = "init" /\ reg' = e.v /\ ini' = e.v /\ msg' = <<>> /\ Out(e)
Add(m) == msg' = IF Len(msg) + Len(m) <= Keep THEN msg \o m ELSE msg
Block(e) == e.op = "block" /\ (Keep = 0 \/ Len(msg) + Len(e.m) <= Keep) /\ UNCHANGED ini
            /\ reg' = Feed(reg, e.m) /\ Add(e.m) /\ Out(e)
GenB(e) == e.op = "gen" /\ Keep = 0 /\ UNCHANGED <<ini, msg>> /\ reg' = FeedGen(reg, e.a, e.b, e.i, e.j) /\ Out(e)
\* restart from the initial value with the whole message at once
Whole(e) == e.op = "whole" /\ Keep > 0 /\ UNCHANGED <<ini, msg>> /\ reg' = Feed(ini, msg) /\ Out(e)
Step(e) == Reset(e) \/ Start(e) \/ Block(e) \/ GenB(e) \/ Whole(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
\* however the message was cut into blocks, the register is the remainder of all of it
IsRemainder == Keep > 0 => reg = Remainder(ini, msg)
EmptyPiece == [][ (obs'.op.op = "block" /\ obs'.op.m = <<>>) => reg' = reg ]_vars
WholeIsPieces == [][ obs'.op.op = "whole" => reg' = reg ]_vars
===========================================================================
