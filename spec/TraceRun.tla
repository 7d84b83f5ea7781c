------------------------------ MODULE TraceRun ------------------------------
(* The driver of trace validation, instantiated by every Trace_X module.   *)
EXTENDS TraceKit
CONSTANTS TInit0, TStep0(_, _), TJudge0(_, _)
VARIABLES l, st, bad, cnt

(* at most 20 failures of each clause are kept *)
RECURSIVE Keep(_, _, _)
Keep(b, f, i) ==
  IF i > Len(f) THEN b
  ELSE Keep(IF Len(SelectSeq(b, LAMBDA x : x.c = f[i].c)) < 20 THEN Append(b, f[i]) ELSE b, f, i + 1)

RInit == l = 1 /\ st = TInit0 /\ bad = <<>> /\ cnt = <<>>

RNext ==
  /\ l <= Len(Trace)
  /\ LET e  == Trace[l]
         crash == e.op = "crash"
         cs == IF crash THEN <<Ck("ANY.crash", FALSE, <<e.err, e.where>>)>> ELSE TJudge0(st, e)
     IN /\ st' = IF crash THEN st ELSE TStep0(st, e)
        /\ bad' = Keep(bad, Failed(cs, 1, l), 1)
        /\ cnt' = Tally(cnt, cs, 1)
  /\ l' = l + 1
  /\ (l = Len(Trace) =>
        JsonSerialize(IOEnv.VERDICT, [n |-> l, bad |-> bad', cnt |-> cnt']))
=============================================================================
