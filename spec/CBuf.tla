------------------------------ MODULE CBuf ------------------------------
(***************************************************************************)
(* gel/collections/circular_buffer.c, one caller at a time (property C01). *)
(*                                                                         *)
(* Implementation-shaped part: memory of N cells, write index head, read   *)
(* index tail, one cell always free, bulk operations copying contiguous    *)
(* chunks.  Abstract part (ghost): the sequence q of the bytes accepted    *)
(* and not yet consumed.  The results are specified from q; the invariants *)
(* say that the concrete ring holds exactly q and that chunked copying     *)
(* computes what the abstract operations say.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ops,      \* events offered to the exhaustive exploration
          GhostMem  \* TRUE: also carry the cells (model checking); FALSE: only q (long traces)

VARIABLES N, head, tail, mem, q, obs
vars == <<N, head, tail, mem, q, obs>>
View == <<N, head, tail, q>>

Min(a, b) == IF a < b THEN a ELSE b
Garbage == -1

(*---------------------------- concrete ring ----------------------------*)
Full(h, t)  == (h + 1) % N = t
Stored(h, t) == IF h >= t THEN h - t ELSE N + h - t

\* chunked bulk put: the index head never lands on tail
RECURSIVE PutChunks(_, _, _, _)
PutChunks(m, h, d, done) ==
  IF done = Len(d) \/ Full(h, tail) THEN [m |-> m, h |-> h, n |-> done]
  ELSE LET want == Len(d) - done
           room == IF h >= tail THEN (IF tail = 0 THEN N - h - 1 ELSE N - h) ELSE tail - h - 1
           c    == Min(want, room)
       IN  PutChunks([i \in 0..N-1 |-> IF i >= h /\ i < h + c THEN d[done + i - h + 1] ELSE m[i]],
                     (h + c) % N, d, done + c)

\* chunked bulk get
RECURSIVE GetChunks(_, _, _)
GetChunks(t, len, out) ==
  IF len = 0 THEN [t |-> t, d |-> out]
  ELSE LET c == Min(len, IF head > t THEN head - t ELSE N - t)
       IN  GetChunks((t + c) % N, len - c, out \o [i \in 1..c |-> mem[t + i - 1]])

Contents(m, h, t) == [i \in 1..Stored(h, t) |-> m[(t + i - 1) % N]]

(*---------------------------- observations -----------------------------*)
\* what every call reports: result, delivered bytes, and the four observers after the call
Ret(r, d, n, qq) == [r |-> r, d |-> d, size |-> Len(qq), cap |-> n - 1,
                     empty |-> IF qq = <<>> THEN 1 ELSE 0, full |-> IF Len(qq) = n - 1 THEN 1 ELSE 0]
Out(e, r, d) == obs' = [op |-> e, ret |-> Ret(r, d, N', q')]

Blank == N = 0 /\ head = 0 /\ tail = 0 /\ mem = <<>> /\ q = <<>>
Init == Blank /\ obs = [op |-> [op |-> "none"], ret |-> 0]

(*------------------------------- actions -------------------------------*)
Reset(e) == /\ e.op = "reset"
            /\ N' = 0 /\ head' = 0 /\ tail' = 0 /\ mem' = <<>> /\ q' = <<>>
            /\ obs' = [op |-> e, ret |-> 0]

InitRing(e) == /\ e.op = "init" /\ e.n > 0
               /\ N' = e.n /\ head' = 0 /\ tail' = 0 /\ q' = <<>>
               /\ mem' = IF GhostMem THEN [i \in 0..e.n-1 |-> Garbage] ELSE <<>>
               /\ Out(e, 0, <<>>)

\* initialising without memory or with size 0 is refused and changes nothing
BadInit(e) == /\ e.op = "badinit" /\ N > 0
              /\ UNCHANGED <<N, head, tail, mem, q>> /\ Out(e, 1, <<>>)

Clear(e) == /\ e.op = "clear" /\ N > 0
            /\ head' = 0 /\ tail' = 0 /\ q' = <<>> /\ UNCHANGED <<N, mem>>
            /\ Out(e, 0, <<>>)

PutC(e) == /\ e.op = "putc" /\ N > 0
           /\ IF Len(q) = N - 1
              THEN UNCHANGED <<N, head, tail, mem, q>> /\ Out(e, -1, <<>>)
              ELSE /\ q' = Append(q, e.b)
                   /\ head' = (head + 1) % N
                   /\ mem' = IF GhostMem THEN [mem EXCEPT ![head] = e.b] ELSE mem
                   /\ UNCHANGED <<N, tail>>
                   /\ Out(e, 0, <<>>)

PutS(e) == /\ e.op = "puts" /\ N > 0
           /\ LET n == Min(Len(e.d), N - 1 - Len(q))
                  c == PutChunks(mem, head, e.d, 0)
              IN  /\ q' = q \o SubSeq(e.d, 1, n)
                  /\ head' = (head + n) % N
                  /\ mem' = IF GhostMem THEN c.m ELSE mem
                  /\ UNCHANGED <<N, tail>>
                  /\ GhostMem => Assert(c.h = head' /\ c.n = n, "chunked put differs")
                  /\ Out(e, n, <<>>)

GetC(e) == /\ e.op = "getc" /\ N > 0
           /\ IF q = <<>>
              THEN UNCHANGED <<N, head, tail, mem, q>> /\ Out(e, -1, <<>>)
              ELSE /\ q' = Tail(q) /\ tail' = (tail + 1) % N
                   /\ UNCHANGED <<N, head, mem>>
                   /\ Out(e, 0, IF e.want = 1 THEN <<Head(q)>> ELSE <<>>)

Bulk(e, n) == LET c == GetChunks(tail, n, <<>>)
              IN  GhostMem => Assert(c.d = SubSeq(q, 1, n) /\ c.t = (tail + n) % N, "chunked get differs")

GetS(e) == /\ e.op = "gets" /\ N > 0
           /\ LET n == Min(e.len, Len(q))
              IN  /\ Bulk(e, n)
                  /\ q' = SubSeq(q, n + 1, Len(q)) /\ tail' = (tail + n) % N
                  /\ UNCHANGED <<N, head, mem>>
                  /\ Out(e, n, IF e.want = 1 THEN SubSeq(q, 1, n) ELSE <<>>)

Peek(e) == /\ e.op = "peek" /\ N > 0
           /\ LET n == Min(e.len, Len(q))
              IN  /\ Bulk(e, n)
                  /\ UNCHANGED <<N, head, tail, mem, q>>
                  /\ Out(e, n, IF e.want = 1 THEN SubSeq(q, 1, n) ELSE <<>>)

Drop(e) == /\ e.op = "drop" /\ N > 0
           /\ LET n == Min(e.len, Len(q))
              IN  /\ q' = SubSeq(q, n + 1, Len(q)) /\ tail' = (tail + n) % N
                  /\ UNCHANGED <<N, head, mem>>
                  /\ Out(e, n, <<>>)

\* no ring ("null"), or one that was never given memory ("bare"): every transfer fails, nothing is stored, nothing else is affected
NoRing(e) == /\ e.op = "noring" /\ UNCHANGED <<N, head, tail, mem, q>>
             /\ obs' = [op |-> e, ret |-> [xfer |-> [i \in 1..6 |-> -1], empty |-> 1, looks |-> <<0, 0, 0>>, data |-> 0]]

Step(e) == NoRing(e) \/ Reset(e) \/ InitRing(e) \/ BadInit(e) \/ Clear(e) \/ PutC(e) \/ PutS(e)
           \/ GetC(e) \/ GetS(e) \/ Peek(e) \/ Drop(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
Bounded   == N > 0 => Len(q) <= N - 1
Indices   == N > 0 => head \in 0..N-1 /\ tail \in 0..N-1
\* the concrete ring holds exactly the abstract queue
Refines   == N > 0 => /\ Stored(head, tail) = Len(q)
                      /\ GhostMem => Contents(mem, head, tail) = q
FullEmpty == N > 0 => /\ Full(head, tail) <=> Len(q) = N - 1
                      /\ head = tail <=> q = <<>>
\* exactly-once, in order: a call only appends accepted bytes or removes delivered ones
ExactlyOnce == [][ LET e == obs'.op IN
                   \/ e.op \in {"reset", "init", "clear"}
                   \/ e.op \in {"putc", "puts"} /\ q = SubSeq(q', 1, Len(q))
                   \/ e.op \in {"getc", "gets", "drop"} /\ q' = SubSeq(q, Len(q) - Len(q') + 1, Len(q))
                   \/ e.op \in {"peek", "badinit", "noring"} /\ q' = q ]_vars
===========================================================================
