----------------------------- MODULE CBufBig ----------------------------
(***************************************************************************)
(* gel/collections/circular_buffer.c with large rings (property C01): the  *)
(* bytes are numbered in the order in which they are accepted, so the ring *)
(* always holds the numbers got..acc-1, and a call is described by counts. *)
(* The harness derives each byte from its number and compares all of them. *)
(* cells is the concrete memory for small rings (Cells = TRUE).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Ops, Cells, MaxN

VARIABLES N, acc, got, head, tail, cells, obs
vars == <<N, acc, got, head, tail, cells, obs>>
View == <<N, acc, got, head, tail, cells>>

Min(a, b) == IF a < b THEN a ELSE b
Init == /\ N = 0 /\ acc = 0 /\ got = 0 /\ head = 0 /\ tail = 0 /\ cells = <<>>
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]

Out(e, r) == obs' = [op |-> e, ret |-> [r |-> r, size |-> acc' - got', cap |-> N' - 1, empty |-> IF acc' = got' THEN 1 ELSE 0,
                                        full |-> IF acc' - got' = N' - 1 THEN 1 ELSE 0]]

Reset(e) == /\ e.op = "reset" /\ N' = 0 /\ acc' = 0 /\ got' = 0 /\ head' = 0 /\ tail' = 0 /\ cells' = <<>>
            /\ obs' = [op |-> e, ret |-> 0]
New(e) == /\ e.op = "bigring" /\ N = 0 /\ N' = e.n /\ acc' = 0 /\ got' = 0 /\ head' = 0 /\ tail' = 0
          /\ cells' = IF Cells THEN [i \in 0..e.n-1 |-> -1] ELSE <<>>
          /\ Out(e, 0)

\* a bulk put of e.k bytes, numbered from acc
PutN(e) == /\ e.op = "putn" /\ N > 0 /\ acc + e.k <= MaxN
           /\ LET k == Min(e.k, N - 1 - (acc - got))
              IN /\ acc' = acc + k /\ head' = (head + k) % N
                 /\ cells' = IF Cells THEN [i \in 0..N-1 |-> LET d == (i - head + N) % N IN IF d < k THEN acc + d ELSE cells[i]] ELSE cells
                 /\ UNCHANGED <<N, got, tail>>
                 /\ Out(e, k)

\* a bulk get, peek or drop of e.k bytes; what is delivered must be the bytes numbered from e.from = got
Take(e) == /\ e.op \in {"getn", "peekn", "dropn"} /\ N > 0 /\ e.from = got
           /\ LET k == Min(e.k, acc - got)
              IN /\ IF e.op = "peekn" THEN UNCHANGED <<got, tail>> ELSE got' = got + k /\ tail' = (tail + k) % N
                 /\ UNCHANGED <<N, acc, head, cells>>
                 /\ Out(e, k)

\* e.k times a byte in and a byte out, one by one (e.m: by which calls): each call succeeds and finds the ring one fuller, one emptier
Walk(e) == /\ e.op = "walk" /\ N > 0 /\ e.from = got /\ acc - got < N - 1 /\ acc + e.k <= MaxN
           /\ acc' = acc + e.k /\ got' = got + e.k /\ head' = (head + e.k) % N /\ tail' = (tail + e.k) % N
           /\ cells' = IF Cells THEN [i \in 0..N-1 |-> LET d == (i - head + N) % N
                                                         LastK == e.k - 1 - ((e.k - 1 - d) % N)
                                                     IN IF e.k > 0 /\ d < e.k THEN acc + LastK ELSE cells[i]] ELSE cells
           /\ UNCHANGED N
           /\ Out(e, e.k)

Step(e) == Reset(e) \/ New(e) \/ PutN(e) \/ Take(e) \/ Walk(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

Bounded == N > 0 => acc - got \in 0..N-1
Indices == N > 0 => head = acc % N /\ tail = got % N
Holds   == N > 0 /\ Cells => \A k \in got..acc-1 : cells[k % N] = k
==========================================================================
