------------------------------- MODULE Clock -------------------------------
(* A ticking clock: a start instant, a period duration and a tick counter. *)
EXTENDS Calendar

NewClock(start, dur) == [start |-> start, dur |-> dur, ix |-> 0]
Tick(c) == [c EXCEPT !.ix = @ + 1]
Reset(c) == [c EXCEPT !.ix = 0]
At(c, k) == PeriodStart(c.start, c.dur, k)
(* its start, duration or counter may be set at any time *)
Restart(c, start) == [c EXCEPT !.start = start]
Repace(c, dur) == [c EXCEPT !.dur = dur]
Jump(c, k) == [c EXCEPT !.ix = k]
Now(c) == At(c, c.ix)
=============================================================================
