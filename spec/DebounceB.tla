----------------------------- MODULE DebounceB --------------------------
(* Bounded exploration of Debounce: pulse counts are not driven beyond MaxCount, and a filter already in use is *)
(* re-initialised only with ReOps (any configuration is possible for the first initialisation). *)
EXTENDS Debounce
CONSTANTS MaxCount, ReOps
NextB == \E e \in Ops : (on /\ e.op = "init" => e \in ReOps) /\ Step(e) /\ \A i \in I : count'[i] <= MaxCount
SpecB == Init /\ [][NextB]_vars
===========================================================================
