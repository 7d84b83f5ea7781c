---------------------------- MODULE Trace_Clock ----------------------------
(* Traces of auxi.core.time.Clock judged against Clock.                    *)
EXTENDS Clock, TraceKit

TInit == NewClock(<<1, 0, 0>>, "month")

TStep(s, e) ==
  CASE e.op = "new" -> NewClock(Instant(e.start), e.dur)
    [] e.op = "tick" -> Tick(s)
    [] e.op = "reset" -> Reset(s)
    [] e.op = "restart" -> Restart(s, Instant(e.start))
    [] e.op = "repace" -> Repace(s, e.dur)
    [] e.op = "jump" -> Jump(s, e.k)
    [] OTHER -> s

Obs(r) == IF Len(r) = 5 THEN Instant(r) ELSE <<0, 0, 0>>

TJudge(s, e) ==
  LET t == TStep(s, e) IN
  CASE e.op = "case" -> <<>>
    [] e.op \in {"new", "tick", "reset", "restart", "repace", "jump"} ->
         <<Ck("B01.counter", e.err = "" /\ e.ix = t.ix, <<"expected tick", t.ix, e.err>>),
           Ck("B01.now", e.err = "" /\ Obs(e.now) = Now(t),
              <<"expected now", Civil(Now(t)[1]), Now(t), e.err>>)>>
    [] e.op = "at" ->
         <<Ck("B01.at", e.err = "" /\ Obs(e.res) = At(s, e.k),
              <<"expected", Civil(At(s, e.k)[1]), At(s, e.k), e.err>>),
           Ck("B01.query_is_pure", e.ix = s.ix, s.ix)>>

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
