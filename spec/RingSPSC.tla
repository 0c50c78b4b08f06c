----------------------------- MODULE RingSPSC ---------------------------
(***************************************************************************)
(* gel/collections/circular_buffer with one producer (thread 0) and one    *)
(* consumer (thread 1) (property C02): what any interleaving of accesses   *)
(* may do.  State: the ring of N cells with its write and read index, and  *)
(* per thread the call in progress.  A call records, at every moment while *)
(* it runs, how much the ring held: a short transfer or an observed value  *)
(* must be justified by one of those moments.                              *)
(*   call: a thread calls f (n bytes; d the bytes of a put)                *)
(*   step: one memory access of a thread: the indices after it, the cells  *)
(*         it changed, b # 0 if it touched anything else                   *)
(*   ret:  the call returns r, having delivered d                          *)
(* Ops is only used to explore the specification itself.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ops
VARIABLES N, cells, head, tail, th,   \* cells: 1..N, indices from 0
          sent, got,                  \* ghost: the bytes published and consumed since the start
          obs
vars == <<N, cells, head, tail, th, sent, got, obs>>
View == <<N, cells, head, tail, th, sent, got>>
\* th[t]: f ("idle" between calls), bytes asked for, bytes of a put, bytes moved so far in the call, amounts held at the moments of the call
Idle == [f |-> "idle", n |-> 0, d |-> <<>>, m |-> <<>>, seen |-> {}]
Blank == N = 0 /\ cells = <<>> /\ head = 0 /\ tail = 0 /\ th = [t \in 0..1 |-> Idle] /\ sent = <<>> /\ got = <<>>
Init == Blank /\ obs = [op |-> [op |-> "none"], ret |-> 0]

HeldAt(h, t) == IF h >= t THEN h - t ELSE N + h - t
Held == HeldAt(head, tail)
Content(i) == cells[1 + ((tail + i - 1) % N)]          \* the i-th stored byte
IsStored(c) == ((c - tail) % N) < Held                 \* cell c (from 0) holds a stored byte
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

Producer == {"puts", "putc", "size", "empty", "full"}
Consumer == {"gets", "getc", "peek", "drop", "getc0", "size", "empty", "full"}
Consuming == {"gets", "getc", "drop", "getc0"}
\* amount held, leaving aside what the call itself has put or taken: a call may decide how much to move at any one moment
Amount(t, x, h, tl) == HeldAt(h, tl) + (IF t = 1 THEN Len(x.m) ELSE -Len(x.m))

(*------------------------------ legality -------------------------------*)
Changed(e) == {e.c[i][1] : i \in 1..Len(e.c)}
NewCell(e, c) == IF c \in Changed(e) THEN LET i == CHOOSE i \in 1..Len(e.c) : e.c[i][1] = c IN e.c[i][2] ELSE cells[c + 1]
\* the producer moves only the write index, over cells holding the next bytes of its argument, and spares stored bytes
ProducerStep(e) ==
  LET x == th[0] k == (e.h - head) % N
  IN /\ e.k = tail /\ e.b = 0 /\ \A c \in Changed(e) : ~IsStored(c)
     /\ (x.f \notin {"puts", "putc"} => k = 0 /\ e.c = <<>>)
     /\ e.h \in 0..N-1 /\ k <= N - 1 - Held
     /\ Len(x.m) + k <= Len(x.d)
     /\ \A i \in 1..k : NewCell(e, (head + i - 1) % N) = x.d[Len(x.m) + i]
\* the consumer moves only the read index, at most to the write index and by what it was asked for
ConsumerStep(e) ==
  LET x == th[1] k == (e.k - tail) % N
  IN /\ e.h = head /\ e.b = 0 /\ e.c = <<>> /\ e.k \in 0..N-1 /\ k <= Held
     /\ (k > 0 => x.f \in Consuming) /\ Len(x.m) + k <= x.n
Legal(e) ==
  CASE e.op = "start" -> TRUE
    [] e.op = "call" -> th[e.t].f = "idle" /\ (IF e.t = 0 THEN e.f \in Producer ELSE e.f \in Consumer)
    [] e.op = "step" -> th[e.t].f # "idle" /\ (IF e.t = 0 THEN ProducerStep(e) ELSE ConsumerStep(e))
    [] e.op = "ret" ->
         LET x == th[e.t] moved == Len(x.m) n == x.n
         IN CASE x.f = "puts" -> e.r = moved /\ e.d = <<>> /\ (moved < n => N - 1 - moved \in x.seen)
              [] x.f = "putc" -> e.d = <<>> /\ ((e.r = 0 /\ moved = 1) \/ (e.r = -1 /\ moved = 0 /\ N - 1 \in x.seen))
              [] x.f = "gets" -> e.r = moved /\ e.d = x.m /\ (moved < n => moved \in x.seen)
              [] x.f = "drop" -> e.r = moved /\ e.d = <<>> /\ (moved < n => moved \in x.seen)
              [] x.f = "getc" -> (e.r = 0 /\ moved = 1 /\ e.d = x.m) \/ (e.r = -1 /\ moved = 0 /\ e.d = <<>> /\ 0 \in x.seen)
              [] x.f = "getc0" -> e.d = <<>> /\ ((e.r = 0 /\ moved = 1) \/ (e.r = -1 /\ moved = 0 /\ 0 \in x.seen))
              [] x.f = "peek" -> /\ e.r = Len(e.d) /\ e.r <= n /\ e.r <= Held /\ (e.r < n => e.r \in x.seen)
                                 /\ \A i \in 1..e.r : e.d[i] = Content(i)
              [] x.f = "size" -> e.r \in x.seen
              [] x.f = "empty" -> IF e.r = 1 THEN 0 \in x.seen ELSE e.r = 0 /\ \E s \in x.seen : s > 0
              [] x.f = "full" -> IF e.r = 1 THEN N - 1 \in x.seen ELSE e.r = 0 /\ \E s \in x.seen : s < N - 1
              [] OTHER -> FALSE
    [] OTHER -> FALSE                                 \* "stuck": a call that does not return

(*------------------------------- effects -------------------------------*)
Start(e) == /\ e.op = "start"
            /\ N' = e.n /\ cells' = e.c /\ head' = e.h /\ tail' = e.k /\ th' = [t \in 0..1 |-> Idle]
            /\ sent' = [i \in 1..((e.h - e.k) % e.n) |-> e.c[1 + ((e.k + i - 1) % e.n)]] /\ got' = <<>>
Call(e) == /\ e.op = "call" /\ UNCHANGED <<N, cells, head, tail, sent, got>>
           /\ th' = [th EXCEPT ![e.t] = [f |-> e.f, n |-> e.n, d |-> e.d, m |-> <<>>, seen |-> {Held}]]
MemStep(e) ==
  /\ e.op = "step" /\ UNCHANGED N
  /\ cells' = [i \in 1..N |-> NewCell(e, i - 1)] /\ head' = e.h /\ tail' = e.k
  /\ LET kp == (e.h - head) % N kc == (e.k - tail) % N
         out == [i \in 1..kc |-> Content(i)]
         mv == [t \in 0..1 |-> IF t # e.t THEN th[t].m ELSE IF t = 0 THEN th[0].m \o SubSeq(th[0].d, Len(th[0].m) + 1, Len(th[0].m) + kp) ELSE th[1].m \o out]
     IN /\ th' = [t \in 0..1 |-> IF th[t].f = "idle" THEN th[t]
                                 ELSE LET y == [th[t] EXCEPT !.m = mv[t]] IN [y EXCEPT !.seen = @ \cup {Amount(t, y, e.h, e.k)}]]
        /\ sent' = sent \o SubSeq(th[0].d, Len(th[0].m) + 1, Len(th[0].m) + kp) /\ got' = got \o out
Return(e) == e.op = "ret" /\ th' = [th EXCEPT ![e.t] = Idle] /\ UNCHANGED <<N, cells, head, tail, sent, got>>
Effect(e) == Start(e) \/ Call(e) \/ MemStep(e) \/ Return(e)
Step(e) == Legal(e) /\ Effect(e) /\ obs' = [op |-> e, ret |-> 0]
Next == \E e \in Ops : (e.op = "start" \/ N > 0) /\ Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
\* the consumer has received a prefix of the accepted stream and the ring holds exactly the rest, in order
Fifo == N > 0 => (/\ Len(got) + Held = Len(sent) /\ IsPrefix(got, sent)
                  /\ \A i \in 1..Held : Content(i) = sent[Len(got) + i])
Bounded == N > 0 => Held <= N - 1
Small == Len(sent) <= N     \* bound for exploring the rules themselves
SpareCell == N > 0 => head \in 0..N-1 /\ tail \in 0..N-1
===========================================================================
