------------------------------- MODULE Wear -----------------------------
(***************************************************************************)
(* gel/wearleveling (properties C07 and C08).                              *)
(* Storage: B blocks, each with a marker modulo Mod and data; a block      *)
(* write stores the data first and the marker last.  RAM: active block and *)
(* its marker, lost at a power loss (ready = FALSE until the next init).   *)
(* Crash points of a block write: "before" (nothing stored), "mid" (data   *)
(* torn, marker old), "after" (stored, power lost before the return).      *)
(* A failing block write stores nothing or tears the data, never the       *)
(* marker.  Ghost: allowed (what a read may return), wear (writes per      *)
(* block above the minimum), clean (no fault or crash so far).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ops, Mod, Proj     \* Proj: "data" (C07), "wear" (C08, relative markers), "wearabs" (C08, absolute)

VARIABLES B, marker, data, ready, act, last, allowed, wear, clean, obs
vars == <<B, marker, data, ready, act, last, allowed, wear, clean, obs>>
storage == <<B, marker, data>>
\* the absolute marker is irrelevant for behaviour: explore modulo a common shift
Base == IF B = 0 THEN 0 ELSE marker[0]
View == <<B, [b \in DOMAIN marker |-> (marker[b] - Base + Mod) % Mod], data, ready,
          IF ready THEN act ELSE 0, IF ready THEN (last - Base + Mod) % Mod ELSE 0, allowed, wear, clean>>

Torn == -1
Nxt(b) == (b + 1) % B
Succ(m) == (m + 1) % Mod

Init == /\ B = 0 /\ marker = <<>> /\ data = <<>> /\ ready = FALSE /\ act = 0 /\ last = 0
        /\ allowed = {} /\ wear = <<>> /\ clean = TRUE
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]

\* r: result of the call, d: value read (-2 if nothing read), w: block writes received by the storage
Out(e, r, d, w) == obs' = [op |-> e, ret |->
    IF Proj = "data" THEN <<r, d>> ELSE [n \in 1..Len(w) |-> IF Proj = "wear" THEN <<w[n][1], (w[n][2] - marker[(w[n][1] - 1 + B) % B] + Mod) % Mod>>
                                                            ELSE w[n]]]

Reset(e) == /\ e.op = "reset" /\ B' = 0 /\ marker' = <<>> /\ data' = <<>> /\ ready' = FALSE /\ act' = 0 /\ last' = 0
            /\ allowed' = {} /\ wear' = <<>> /\ clean' = TRUE /\ obs' = [op |-> e, ret |-> 0]

\* a virgin storage: all markers equal, all blocks blank
Virgin(e) == /\ e.op = "virgin" /\ B = 0 /\ B' = e.b
             /\ marker' = [b \in 0..e.b-1 |-> e.m] /\ data' = [b \in 0..e.b-1 |-> 0]
             /\ ready' = FALSE /\ act' = 0 /\ last' = 0 /\ allowed' = {0}
             /\ wear' = [b \in 0..e.b-1 |-> 0] /\ clean' = TRUE
             /\ obs' = [op |-> e, ret |-> 0]

\* first block (from 0) whose successor does not carry the following marker
RECURSIVE FoundFrom(_)
FoundFrom(i) == IF i = B - 1 THEN i ELSE IF marker[i+1] # Succ(marker[i]) THEN i ELSE FoundFrom(i + 1)
Found == FoundFrom(0)

\* e.err # 0: reading a marker fails with that code, any (e.bad = -1) or that of block e.bad; an initialisation
\* that never asks for a marker that cannot be read succeeds (the read value then tells: -3 if it asked, -2 if not)
Boot(e) == /\ e.op = "init" /\ B > 0
           /\ UNCHANGED <<storage, allowed, wear, clean>>
           /\ \/ /\ e.err = 0 \/ e.bad >= 0
                 /\ ready' = TRUE /\ act' = Found /\ last' = marker[Found] /\ Out(e, 0, -2, <<>>)
              \/ /\ e.err # 0
                 /\ ready' = FALSE /\ act' = 0 /\ last' = 0
                 /\ Out(e, e.err, -3, <<>>)

Power(e) == /\ e.op = "power" /\ B > 0 /\ ready' = FALSE /\ act' = 0 /\ last' = 0
            /\ UNCHANGED <<storage, allowed, wear, clean>> /\ Out(e, 0, -2, <<>>)

Read(e) == /\ e.op = "read" /\ ready
           /\ UNCHANGED <<storage, ready, act, last, allowed, wear, clean>>
           /\ IF e.err # 0 THEN Out(e, e.err, -2, <<>>) ELSE Out(e, 0, data[act], <<>>)

\* e.rerr: block reads fail with that code.  e.fault: what happens inside the block write, if there is one:
\* "none", "fail0"/"failt" (fails with e.werr, nothing/torn data stored), "before"/"mid"/"after" (power loss)
Write(e) ==
  /\ e.op = "write" /\ ready
  /\ IF e.rerr # 0
     THEN UNCHANGED <<storage, ready, act, last, allowed, wear, clean>> /\ Out(e, e.rerr, -2, <<>>)
     ELSE IF data[act] = e.v
     THEN /\ allowed' = {e.v} /\ UNCHANGED <<storage, ready, act, last, wear, clean>> /\ Out(e, 0, -2, <<>>)
     ELSE LET b == Nxt(act)
              m == Succ(last)
              w == <<<<b, m>>>>
              stored == e.fault \in {"none", "after"}
              torn   == e.fault \in {"failt", "mid"}
              crash  == e.fault \in {"before", "mid", "after"}
              bump   == [wear EXCEPT ![b] = @ + 1]
              low    == IF \A i \in DOMAIN bump : bump[i] > 0 THEN 1 ELSE 0
          IN /\ marker' = IF stored THEN [marker EXCEPT ![b] = m] ELSE marker
             /\ data' = IF stored THEN [data EXCEPT ![b] = e.v] ELSE IF torn THEN [data EXCEPT ![b] = Torn] ELSE data
             /\ allowed' = IF e.fault = "none" THEN {e.v} ELSE IF e.fault = "after" THEN allowed \cup {e.v} ELSE allowed
             /\ clean' = (clean /\ stored)
             /\ wear' = IF clean' THEN [i \in DOMAIN bump |-> bump[i] - low] ELSE [i \in DOMAIN wear |-> 0]
             /\ act' = IF crash THEN 0 ELSE IF e.fault = "none" THEN b ELSE act
             /\ last' = IF crash THEN 0 ELSE IF e.fault = "none" THEN m ELSE last
             /\ ready' = ~crash
             /\ UNCHANGED B
             /\ Out(e, IF crash THEN 9999 ELSE IF e.fault = "none" THEN 0 ELSE e.werr, -2, w)

Step(e) == Reset(e) \/ Virgin(e) \/ Boot(e) \/ Power(e) \/ Read(e) \/ Write(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(* C07: whatever the RAM believes, and whatever a restart would find, is allowed data *)
NoLoss     == B > 0 => data[Found] \in allowed
ReadsRight == ready => data[act] \in allowed
\* the RAM agrees with what a restart would find (no hidden divergence)
InSync     == ready => act = Found /\ last = marker[Found]
NotTorn    == B > 0 => data[Found] # Torn
(* C08 *)
\* the minimum of wear is kept at 0, so two blocks never differ by more than one write
Even == clean => \A i \in DOMAIN wear : wear[i] \in {0, 1}
RoundRobin == [][ marker' # marker /\ obs'.op.op = "write" =>
                    \E b \in 0..B-1 : /\ marker'[b] = Succ(marker[(b - 1 + B) % B])
                                      /\ \A j \in 0..B-1 : j # b => marker'[j] = marker[j] /\ data'[j] = data[j] ]_vars
OnlyWrites == [][ obs'.op.op \in {"read", "init", "power"} => UNCHANGED storage ]_vars
===========================================================================
