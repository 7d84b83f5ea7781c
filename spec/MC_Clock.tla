------------------------------ MODULE MC_Clock ------------------------------
(***************************************************************************)
(* Exhaustive check of the clock design, and generator of one scenario per *)
(* transition of its state graph for replay against the implementation.    *)
(***************************************************************************)
EXTENDS Clock, TLC, Json

CONSTANTS MaxIx

(* Starts that make month and year arithmetic interesting. *)
Starts == {<<2016, 1, 31, 0, 0>>, <<2016, 2, 29, 86399, 999000>>,
           <<2015, 12, 31, 43200, 500000>>, <<1999, 11, 30, 1, 1>>,
           <<2100, 1, 29, 0, 0>>, <<2000, 8, 31, 82800, 0>>,
           <<2017, 3, 15, 3599, 999999>>, <<1, 1, 1, 0, 0>>}

(* what a clock in use may be set to *)
Starts2 == {<<2016, 1, 31, 0, 0>>, <<2017, 3, 15, 3599, 999999>>}
Durations2 == {"month", "day"}
Jumps == {0, 13}

VARIABLES c, hist
vars == <<c, hist>>

Init == \E s \in Starts, d \in Durations :
          /\ c = NewClock(Instant(s), d)
          /\ hist = <<[op |-> "new", start |-> s, dur |-> d, k |-> 0]>>
DoTick == c.ix < MaxIx /\ c' = Tick(c)
          /\ hist' = Append(hist, [op |-> "tick", start |-> <<>>, dur |-> "", k |-> 0])
DoReset == c' = Reset(c)
          /\ hist' = Append(hist, [op |-> "reset", start |-> <<>>, dur |-> "", k |-> 0])
DoRestart == \E s \in Starts2 : /\ Instant(s) # c.start /\ c' = Restart(c, Instant(s))
               /\ hist' = Append(hist, [op |-> "restart", start |-> s, dur |-> "", k |-> 0])
DoRepace == \E d \in Durations2 : /\ d # c.dur /\ c' = Repace(c, d)
               /\ hist' = Append(hist, [op |-> "repace", start |-> <<>>, dur |-> d, k |-> 0])
DoJump == \E k \in Jumps : /\ k # c.ix /\ c' = Jump(c, k)
               /\ hist' = Append(hist, [op |-> "jump", start |-> <<>>, dur |-> "", k |-> k])
Next == DoTick \/ DoReset \/ DoRestart \/ DoRepace \/ DoJump
View == c
Spec == Init /\ [][Next]_vars
Emit == PrintT(<<"@@", ToJson(hist')>>)

(* --- properties of the design ------------------------------------------ *)
StartIsPeriodZero == At(c, 0) = c.start
Monotone == Before(At(c, c.ix), At(c, c.ix + 1))
(* a month/year clock keeps its day of month wherever the month has it *)
DayOfMonthKept ==
  c.dur \in {"month", "year"} =>
    LET a == Civil(c.start[1])  b == Civil(Now(c)[1]) IN
    /\ b[3] = IF a[3] > DaysInMonth(b[1], b[2]) THEN DaysInMonth(b[1], b[2]) ELSE a[3]
    /\ Now(c)[2] = c.start[2] /\ Now(c)[3] = c.start[3]
(* the coarser durations agree with the finer ones *)
Consistent ==
  LET s == c.start k == c.ix IN
  /\ PeriodStart(s, "second", k) = PeriodStart(s, "millisecond", 1000 * k)
  /\ PeriodStart(s, "minute", k) = PeriodStart(s, "second", 60 * k)
  /\ PeriodStart(s, "hour", k) = PeriodStart(s, "minute", 60 * k)
  /\ PeriodStart(s, "day", k) = PeriodStart(s, "hour", 24 * k)
  /\ PeriodStart(s, "week", k) = PeriodStart(s, "day", 7 * k)
  /\ PeriodStart(s, "year", k) = PeriodStart(s, "month", 12 * k)
CounterLaw == [][c'.ix \in {c.ix + 1, 0} \/ (c'.ix \in Jumps /\ c'.start = c.start /\ c'.dur = c.dur)
                 \/ c'.ix = c.ix]_c

(* calendar inversion on a full 400 year cycle and around it *)
ASSUME \A n \in 1..400 : Civil(DayNumber(n, 12, 31)) = <<n, 12, 31>>
ASSUME \A n \in 730000..737500 : LET d == Civil(n) IN DayNumber(d[1], d[2], d[3]) = n
ASSUME DayNumber(2016, 2, 1) = 735995 /\ DayNumber(1970, 1, 1) = 719163
=============================================================================
