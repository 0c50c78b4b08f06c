----------------------------- MODULE TimeCmp ----------------------------
(***************************************************************************)
(* gel/timer/timecheck.h (property C12).  Ideal time is the integers; a    *)
(* timestamp is ideal time modulo R.  The answers are those of ideal time; *)
(* each step asserts that the modular formulas the code uses (a difference *)
(* modulo R whose upper half counts as negative) give the same answers.    *)
(* R is small and even for exhaustive checking, 2^30 for traces; replays   *)
(* map the unit to any size and the origin to any place of the real range. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, R
VARIABLES obs
vars == <<obs>>
View == 0
B(x) == IF x THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
H == R \div 2

Init == obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ obs' = [op |-> e, ret |-> 0]

\* modular formulas
Neg(x) == x % R >= H
MAfter(a, b) == Neg(b - a)
MInterval(a, b) == IF MAfter(a, b) THEN (-(b - a)) % R ELSE (b - a) % R

\* timestamps a and b = a + d, less than half the range apart
\* <<after, after or equal, before, interval>> of (a, b), then of (b, a)
Cmp(e) ==
  /\ e.op = "cmp" /\ Abs(e.d) < H
  /\ LET a == e.a % R b == (e.a + e.d) % R IN
       Assert(/\ MAfter(a, b) = (e.d < 0) /\ MAfter(b, a) = (e.d > 0)
              /\ MInterval(a, b) = Abs(e.d) /\ MInterval(b, a) = Abs(e.d), <<"formulas", e>>)
  /\ obs' = [op |-> e, ret |-> << <<B(e.d < 0), B(e.d <= 0), B(e.d > 0), Abs(e.d)>>,
                                  <<B(e.d > 0), B(e.d >= 0), B(e.d < 0), Abs(e.d)>> >>]

\* start a, delay w below half the range, asked d after the timeout (negative: before)
\* <<expired, loosely, strictly>>
Exp(e) ==
  /\ e.op = "exp" /\ Abs(e.d) < H /\ e.w >= 0 /\ e.w < H
  /\ LET due == ((e.a % R) + e.w) % R c == (e.a + e.w + e.d) % R IN
       Assert(/\ (MAfter(c, due) \/ c = due) = (e.d >= 0)
              /\ MAfter(c, due) = (e.d > 0), <<"formulas", e>>)

  /\ obs' = [op |-> e, ret |-> <<B(e.d >= 0), B(e.d >= 0), B(e.d > 0)>>]

Step(e) == Reset(e) \/ Cmp(e) \/ Exp(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars
===========================================================================
