------------------------------- MODULE Pid ------------------------------
(***************************************************************************)
(* gel/pid (property C19).  Ideal: win, the contributions of the last H    *)
(* inputs since the integral was cleared, and dwin, the errors that stood  *)
(* before each of the last D inputs.  Concrete: the two ring buffers of    *)
(* the code; every step asserts that they give the ideal sums.             *)
(* Gains are quarters (k stands for k/4) and results are in quarters;      *)
(* Trunc says that terms are truncated toward zero (integer output type).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ops, H, D, Trunc
VARIABLES c,      \* configuration: set point, gains, thresholds, automatic clearing
          in, first, sign, win, dwin,
          ring, ri, dring, di, dn, obs
vars == <<c, in, first, sign, win, dwin, ring, ri, dring, di, dn, obs>>
View == <<c, in, first, sign, win, dwin>>

C0 == [sp |-> 0, kp |-> 0, ki |-> 0, kd |-> 0, lo |-> 0, hi |-> 0, der |-> 0, elo |-> 0, ehi |-> 0, eder |-> 0, auto |-> 0]
ZeroRing == [i \in 1..H |-> 0]
ZeroD == [i \in 1..D |-> 0]
Clean == /\ c' = C0 /\ in' = 0 /\ first' = FALSE /\ sign' = 0 /\ win' = <<>> /\ dwin' = <<>>
         /\ ring' = ZeroRing /\ ri' = 1 /\ dring' = ZeroD /\ di' = 1 /\ dn' = 0
Init == /\ c = C0 /\ in = 0 /\ first = FALSE /\ sign = 0 /\ win = <<>> /\ dwin = <<>>
        /\ ring = ZeroRing /\ ri = 1 /\ dring = ZeroD /\ di = 1 /\ dn = 0
        /\ obs = [op |-> [op |-> "none"], ret |-> 0]
Reset(e) == e.op = "reset" /\ Clean /\ obs' = [op |-> e, ret |-> 0]

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* k quarters times x, in quarters of the output type
Term(k, x) == IF Trunc THEN Sgn(k) * Sgn(x) * ((Abs(k) * Abs(x)) \div 4) * 4 ELSE k * x
RECURSIVE Sum(_, _)
Sum(s, i) == IF i = 0 THEN 0 ELSE s[i] + Sum(s, i - 1)
Last(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s

PTerm(err) == Term(c'.kp, err)
ITerm == Term(c'.ki, Sum(win', Len(win')))
DTerm(err) == IF dwin' = <<>> \/ (c'.eder # 0 /\ Abs(err) > c'.der) THEN 0 ELSE Term(c'.kd, err - dwin'[1])
\* the oldest reading in the derivative ring of the code (dn of D slots in use)
COldest == IF dn' = D THEN dring'[di'] ELSE dring'[1]
Out(e) ==
  LET err == c'.sp - in' p == PTerm(err) i == ITerm d == DTerm(err)
  IN /\ Assert(/\ Sum(ring', H) = Sum(win', Len(win'))
               /\ dn' = Len(dwin') /\ (dn' > 0 => COldest = dwin'[1]), <<"rings", ring', win', dring', dwin'>>)
     /\ obs' = [op |-> e, ret |-> <<p, i, d, p + i + d, 4 * err>>]

Keep == UNCHANGED <<in, first, sign, win, dwin, ring, ri, dring, di, dn>>
InitP(e) == e.op = "init" /\ Clean /\ Out(e)
Sp(e) == e.op = "sp" /\ c' = [c EXCEPT !.sp = e.v] /\ Keep /\ Out(e)
Tune(e) == e.op = "tune" /\ c' = [c EXCEPT !.kp = e.p, !.ki = e.i, !.kd = e.d] /\ Keep /\ Out(e)
Thr(e) == /\ e.op = "thr" /\ Keep
          /\ c' = (CASE e.w = "low" -> [c EXCEPT !.lo = e.v] [] e.w = "high" -> [c EXCEPT !.hi = e.v] [] e.w = "der" -> [c EXCEPT !.der = e.v])
          /\ Out(e)
En(e) == /\ e.op = "en" /\ Keep
         /\ c' = (CASE e.w = "low" -> [c EXCEPT !.elo = e.v] [] e.w = "high" -> [c EXCEPT !.ehi = e.v] [] e.w = "der" -> [c EXCEPT !.eder = e.v])
         /\ Out(e)
Auto(e) == e.op = "auto" /\ c' = [c EXCEPT !.auto = e.v] /\ Keep /\ Out(e)
Clear(e) == /\ e.op = "clear" /\ win' = <<>> /\ ring' = ZeroRing /\ ri' = 1
            /\ UNCHANGED <<c, in, first, sign, dwin, dring, di, dn>> /\ Out(e)

Input(e) ==
  /\ e.op = "input" /\ UNCHANGED c
  /\ LET old == c.sp - in
         err == c.sp - e.v
         ns == IF err = 0 THEN sign ELSE Sgn(err)
         clear == ns # sign /\ c.auto # 0
         add == IF err > 0 THEN IF c.elo = 0 \/ err < c.lo THEN err ELSE 0
                ELSE IF err < 0 THEN IF c.ehi = 0 \/ -err < c.hi THEN err ELSE 0 ELSE 0
         r0 == IF clear THEN ZeroRing ELSE ring
         i0 == IF clear THEN 1 ELSE ri
     IN /\ in' = e.v /\ first' = TRUE /\ sign' = ns
        /\ win' = Last(Append(IF clear THEN <<>> ELSE win, add), H)
        /\ ring' = [r0 EXCEPT ![i0] = add] /\ ri' = (i0 % H) + 1
        /\ IF first THEN /\ dwin' = Last(Append(dwin, old), D)
                         /\ dring' = [dring EXCEPT ![di] = old] /\ di' = (di % D) + 1 /\ dn' = (IF dn < D THEN dn + 1 ELSE dn)
           ELSE UNCHANGED <<dwin, dring, di, dn>>
  /\ Out(e)

Step(e) == Reset(e) \/ InitP(e) \/ Sp(e) \/ Tune(e) \/ Thr(e) \/ En(e) \/ Auto(e) \/ Clear(e) \/ Input(e)
Next == \E e \in Ops : Step(e)
Spec == Init /\ [][Next]_vars

(*------------------------------ properties -----------------------------*)
Windows == Len(win) <= H /\ Len(dwin) <= D
\* with automatic clearing from the start the window never mixes signs
OneSign == (\A i \in 1..Len(win) : win[i] * sign >= 0) \/ c.auto = 0
Op == obs'.op.op
SumOnly == [][ (Op # "reset" => obs'.ret[4] = obs'.ret[1] + obs'.ret[2] + obs'.ret[3]) ]_vars
===========================================================================
