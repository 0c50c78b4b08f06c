---------------------------- MODULE Scheduler ---------------------------
(***************************************************************************)
(* gel/scheduler (properties C20 and C21): a table of N weekly entries and *)
(* a clock.  A day has Day seconds; now is the second of the week.  An     *)
(* entry is [en, days (bit mask), s, e, v]; an end beyond Day means that   *)
(* the window goes on after midnight.  Obs selects what every step         *)
(* observes: "when" the schedule at the current time, "table" the result   *)
(* of the call and the whole table.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ops, N, Day, Obs
VARIABLES tab, now, obs
vars == <<tab, now, obs>>
View == <<tab, now>>
Zero == [en |-> 0, days |-> 0, s |-> 0, e |-> 0, v |-> 0]
Fresh == [i \in 1..N |-> Zero]
Init == tab = Fresh /\ now = 0 /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ tab' = Fresh /\ now' = 0 /\ obs' = [op |-> e, ret |-> 0]

WDay(n) == n \div Day
Tod(n) == n % Day
Pow2(i) == 2 ^ i
HasDay(m, d) == (m \div Pow2(d)) % 2 = 1
Days(m) == Cardinality({d \in 0..6 : HasDay(m, d)})
Abs(x) == IF x < 0 THEN -x ELSE x
\* the two parts of a window: the one of the day it starts, and the one after midnight
Evening(x, t) == x.s <= t /\ t < x.e /\ t < Day
Morning(x, t) == x.e > Day /\ t < x.e - Day
InWindow(x, n) == HasDay(x.days, WDay(n)) /\ (Evening(x, Tod(n)) \/ Morning(x, Tod(n)))
Remaining(x, n) == IF ~InWindow(x, n) THEN 0
                   ELSE IF Morning(x, Tod(n)) THEN x.e - Day - Tod(n) ELSE x.e - Tod(n)
Weekly(x) == Abs(x.e - x.s) * Days(x.days)
\* x beats y for the role of the active entry, whatever their indices
Beats(x, y) == Weekly(x) < Weekly(y) \/ (Weekly(x) = Weekly(y) /\ x.v > y.v)
Active(t, n) == {i \in 1..N : t[i].en # 0 /\ InWindow(t[i], n)}
Best(t, n) == LET a == Active(t, n)
                  b == {i \in a : \A j \in a : ~Beats(t[j], t[i])}
              IN IF a = {} THEN 0 ELSE CHOOSE i \in b : \A j \in b : i <= j
RECURSIVE Map(_, _)
Map(a, i) == IF i = 0 THEN 0 ELSE Map(a, i - 1) + IF i \in a THEN Pow2(i - 1) ELSE 0

\* <<active entry (from 0, -1 for none), is active, value present, value, time left, map, per entry time left (-1: disabled)>>
When(t, n) == LET b == Best(t, n)
              IN <<b - 1, IF b = 0 THEN 0 ELSE 1, IF b = 0 THEN 0 ELSE 1, IF b = 0 THEN 0 ELSE t[b].v,
                   IF b = 0 THEN 0 ELSE Remaining(t[b], n), Map({i \in Active(t, n) : i <= 16}, IF N < 16 THEN N ELSE 16),
                   [i \in 1..N |-> IF t[i].en = 0 THEN -1 ELSE Remaining(t[i], n)]>>
Table(t) == [i \in 1..N |-> <<t[i].en, t[i].days, t[i].s, t[i].e, t[i].v>>]
Out(e, r) == obs' = [op |-> e, ret |-> IF Obs = "when" THEN When(tab', now') ELSE <<r, Table(tab')>>]

Ok(i) == i >= 0 /\ i < N         \* entries are counted from 0 by the callers
Tick(e) == e.op = "tick" /\ now' = (now + e.d) % (7 * Day) /\ UNCHANGED tab /\ Out(e, 0)
Clock(e) == e.op = "clock" /\ now' = e.n /\ UNCHANGED tab /\ Out(e, 0)
InitS(e) == e.op = "init" /\ tab' = Fresh /\ UNCHANGED now /\ Out(e, 0)
Set(e) == /\ e.op = "set" /\ UNCHANGED now
          /\ tab' = IF Ok(e.i) THEN [tab EXCEPT ![e.i + 1] = e.x] ELSE tab
          /\ Out(e, IF Ok(e.i) THEN 0 ELSE -1)
\* write one field through the pointer to a mutable entry
Mut(e) == /\ e.op = "mut" /\ UNCHANGED now
          /\ tab' = IF ~Ok(e.i) THEN tab
                    ELSE [tab EXCEPT ![e.i + 1] = CASE e.f = "en" -> [@ EXCEPT !.en = e.v] [] e.f = "days" -> [@ EXCEPT !.days = e.v]
                                                    [] e.f = "s" -> [@ EXCEPT !.s = e.v] [] e.f = "e" -> [@ EXCEPT !.e = e.v]
                                                    [] e.f = "v" -> [@ EXCEPT !.v = e.v]]
          /\ Out(e, IF Ok(e.i) THEN 0 ELSE -1)
Disable(e) == /\ e.op = "disable" /\ UNCHANGED now
              /\ tab' = IF Ok(e.i) THEN [tab EXCEPT ![e.i + 1].en = 0] ELSE tab
              /\ Out(e, IF Ok(e.i) THEN 0 ELSE -1)
Read(e, r) == UNCHANGED <<tab, now>> /\ Out(e, r)
Get(e) == e.op = "get" /\ Read(e, IF Ok(e.i) THEN Table(tab)[e.i + 1] ELSE <<>>)
\* 255 is what the code gives for -1 in its eight-bit result
Enabled(e) == e.op = "enabled" /\ Read(e, IF Ok(e.i) THEN tab[e.i + 1].en ELSE 255)
First(e) == e.op = "first" /\ LET f == {i \in 1..N : tab[i].en = 0}
                              IN Read(e, IF f = {} THEN -1 ELSE (CHOOSE i \in f : \A j \in f : i <= j) - 1)
NextE(e) == e.op = "next" /\ LET f == {i \in 1..N : tab[i].en # 0 /\ i - 1 >= e.i}
                             IN Read(e, IF e.i < 0 \/ f = {} THEN -1 ELSE (CHOOSE i \in f : \A j \in f : i <= j) - 1)
Common(a, b) == \E d \in 0..7 : HasDay(a, d) /\ HasDay(b, d)
Overlaps(x, y) == Common(x.days, y.days) /\ x.s <= y.e /\ y.s <= x.e
Overlap(e) == e.op = "overlap" /\ Read(e, Cardinality({i \in 1..N : tab[i].en # 0 /\ Overlaps(e.x, tab[i])}))
Duration(e) == e.op = "duration" /\ Read(e, Abs(e.x.e - e.x.s))
Max(e) == e.op = "max" /\ Read(e, N)
\* times as four bytes, least significant first; <<bytes, count, count, restored entry>>
Ser(e) == e.op = "ser" /\ Read(e, <<<<e.en, e.days>> \o e.s \o e.e \o <<e.v>>, 11, 11, <<e.en, e.days>>, e.s, e.e, e.v>>)
Des(e) == e.op = "des" /\ Read(e, <<11, <<e.b[1], e.b[2]>>, SubSeq(e.b, 3, 6), SubSeq(e.b, 7, 10), e.b[11]>>)

Step(e) == \/ Reset(e) \/ Tick(e) \/ Clock(e) \/ InitS(e) \/ Set(e) \/ Mut(e) \/ Disable(e) \/ Get(e) \/ Enabled(e) \/ First(e)
           \/ NextE(e) \/ Overlap(e) \/ Duration(e) \/ Max(e) \/ Ser(e) \/ Des(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
Op == obs'.op.op
\* the active entry really is the minimum of the active ones
Minimal == LET b == Best(tab, now)
           IN IF b = 0 THEN Active(tab, now) = {}
              ELSE b \in Active(tab, now) /\ \A j \in Active(tab, now) :
                     Weekly(tab[b]) < Weekly(tab[j]) \/ (Weekly(tab[b]) = Weekly(tab[j])
                       /\ (tab[b].v > tab[j].v \/ (tab[b].v = tab[j].v /\ b <= j)))
\* the remaining time counts down second by second, and when it has run out the window is over,
\* unless midnight (where the day mask is looked at again) comes first
CountsDown == [][ (Op = "tick" /\ now' > now) =>
                  (\A i \in 1..N : (InWindow(tab[i], now) /\ WDay(now) = WDay(now')) =>
                     (IF obs'.op.d < Remaining(tab[i], now)
                      THEN Remaining(tab[i], now') = Remaining(tab[i], now) - obs'.op.d
                      ELSE (Remaining(tab[i], now') = 0 \/ Tod(now') >= tab[i].s))) ]_vars
\* a window over midnight goes on into the next day if that day is in the mask
OverMidnight == [][ (Op = "tick" /\ obs'.op.d <= Day) =>
                    (\A i \in 1..N : (WDay(now') # WDay(now) /\ InWindow(tab[i], now) /\ Evening(tab[i], Tod(now)) /\ ~Morning(tab[i], Tod(now))
                                      /\ HasDay(tab[i].days, WDay(now')) /\ tab[i].e - tab[i].s < Day) =>
                       (InWindow(tab[i], now') /\ Morning(tab[i], Tod(now'))) = (obs'.op.d < Remaining(tab[i], now))) ]_vars
OneEntry == [][ (Op \in {"set", "mut", "disable"} => \A i \in 1..N : (i # obs'.op.i + 1 => tab'[i] = tab[i]))
                /\ (Op \in {"get", "enabled", "first", "next", "overlap", "duration", "max", "ser", "des", "tick", "clock"} => tab' = tab) ]_vars
===========================================================================
