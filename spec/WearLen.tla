----------------------------- MODULE WearLen ----------------------------
(***************************************************************************)
(* gel/wearleveling with writes and reads of any length up to the size of  *)
(* a block (properties C07 and C08).  A block write of a shorter buffer    *)
(* leaves the rest of that block as it was, so after a change only the     *)
(* bytes written are known (NoByte elsewhere); a write that changes nothing   *)
(* keeps the others known.  Ghost: allowed, the contents that the last     *)
(* acknowledged write (or one interrupted since) may have left.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ops, Mod, Size, Proj     \* Proj: "data" (results and bytes read) or "wear" (block writes)

VARIABLES B, marker, data, ready, act, last, allowed, obs
vars == <<B, marker, data, ready, act, last, allowed, obs>>
Base == IF B = 0 THEN 0 ELSE marker[0]
View == <<B, [b \in DOMAIN marker |-> (marker[b] - Base + Mod) % Mod], data, ready,
          IF ready THEN act ELSE 0, IF ready THEN (last - Base + Mod) % Mod ELSE 0, allowed>>

NoByte == -1
Nxt(b) == (b + 1) % B
Succ(m) == (m + 1) % Mod
Over(d, x) == [i \in 1..Size |-> IF i <= Len(d) THEN d[i] ELSE x[i]]     \* d in front of x
Fits(k, x) == \A i \in 1..Size : k[i] \in {NoByte, x[i]}
Zeros == [i \in 1..Size |-> 0]
Unknown == [i \in 1..Size |-> NoByte]

Init == /\ B = 0 /\ marker = <<>> /\ data = <<>> /\ ready = FALSE /\ act = 0 /\ last = 0 /\ allowed = {}
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == /\ e.op = "reset" /\ B' = 0 /\ marker' = <<>> /\ data' = <<>> /\ ready' = FALSE /\ act' = 0 /\ last' = 0
            /\ allowed' = {} /\ obs' = [op |-> e, ret |-> 0]
Virgin(e) == /\ e.op = "virgin" /\ B = 0 /\ B' = e.b /\ marker' = [b \in 0..e.b-1 |-> e.m] /\ data' = [b \in 0..e.b-1 |-> Zeros]
             /\ ready' = FALSE /\ act' = 0 /\ last' = 0 /\ allowed' = {Zeros} /\ obs' = [op |-> e, ret |-> 0]

\* w: the block writes <<block, marker after the predecessor's, length>>
Out(e, r, d, w) == obs' = [op |-> e, ret |-> IF Proj = "data" THEN <<r, d>> ELSE w]

RECURSIVE FoundFrom(_)
FoundFrom(i) == IF i = B - 1 THEN i ELSE IF marker[i+1] # Succ(marker[i]) THEN i ELSE FoundFrom(i + 1)
Found == FoundFrom(0)
Boot(e) == /\ e.op = "boot" /\ B > 0 /\ ready' = TRUE /\ act' = Found /\ last' = marker[Found]
           /\ UNCHANGED <<B, marker, data, allowed>> /\ Out(e, 0, <<>>, <<>>)
Read(e) == /\ e.op = "readl" /\ ready /\ UNCHANGED <<B, marker, data, ready, act, last, allowed>>
           /\ Out(e, 0, SubSeq(data[act], 1, e.n), <<>>)
Write(e) ==
  /\ e.op = "writel" /\ ready /\ UNCHANGED B
  /\ IF SubSeq(data[act], 1, Len(e.d)) = e.d
     THEN /\ allowed' = {Over(e.d, k) : k \in {x \in allowed : Fits(x, data[act])}}
          /\ UNCHANGED <<marker, data, ready, act, last>> /\ Out(e, 0, <<>>, <<>>)
     ELSE LET b == Nxt(act)
              stored == e.fault \in {"none", "after"}
              crash  == e.fault \in {"before", "after"}
              new    == Over(e.d, Unknown)
          IN /\ marker' = IF stored THEN [marker EXCEPT ![b] = Succ(last)] ELSE marker
             /\ data' = IF stored THEN [data EXCEPT ![b] = Over(e.d, data[b])] ELSE data
             /\ allowed' = IF e.fault = "none" THEN {new} ELSE IF stored THEN allowed \cup {new} ELSE allowed
             /\ ready' = ~crash
             /\ act' = IF crash THEN 0 ELSE IF stored THEN b ELSE act
             /\ last' = IF crash THEN 0 ELSE IF stored THEN Succ(last) ELSE last
             /\ Out(e, IF crash THEN 9999 ELSE IF stored THEN 0 ELSE -77, <<>>, <<<<b, (Succ(last) - marker[(b - 1 + B) % B] + Mod) % Mod, Len(e.d)>>>>)

Step(e) == Reset(e) \/ Virgin(e) \/ Boot(e) \/ Read(e) \/ Write(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

\* what is read now, and what would be read after losing power, is what was acknowledged
ReadsRight == ready => \E k \in allowed : Fits(k, data[act])
NoLoss     == B > 0 => \E k \in allowed : Fits(k, data[Found])
InSync     == ready => act = Found /\ last = marker[Found]
OneWrite   == [][ marker' # marker /\ obs'.op.op = "writel" => Cardinality({b \in 0..B-1 : marker'[b] # marker[b]}) = 1 ]_vars
===========================================================================
