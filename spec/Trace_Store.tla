---------------------------- MODULE Trace_Store ----------------------------
(***************************************************************************)
(* Traces of objects being used, written and read back, judged against     *)
(* Store.  The model does not know what an object of a kind looks like: it *)
(* remembers how it looked the first time it had a history, and everything *)
(* with the same history has to look and behave the same.                  *)
(***************************************************************************)
EXTENDS Store, TraceKit

TInit == [st |-> Start, seen |-> <<>>, res |-> <<>>]

Model(s, e) ==
  CASE e.op = "new"   -> Create(s, e.s, e.kind)
    [] e.op = "do"    -> Do(s, e.s, e.a)
    [] e.op = "join"  -> Join(s, e.s, e.t, e.a)
    [] e.op = "write" -> Write(s, e.s, e.f)
    [] e.op = "read"  -> Read(s, e.f, e.s)
    [] OTHER -> s

ObjOf(s, name) == IF name \in DOMAIN s.slot THEN s.slot[name] ELSE NoObj
RECURSIVE Learn(_, _, _, _)
Learn(seen, s, vs, i) ==
  IF i > Len(vs) THEN seen
  ELSE LET o == ObjOf(s, vs[i].s)
       IN Learn(IF o \in DOMAIN seen THEN seen ELSE Set(seen, o, vs[i].v), s, vs, i + 1)

TStep(s, e) ==
  IF e.op = "case" THEN TInit
  ELSE LET m == Model(s.st, e) IN
       [st |-> m,
        seen |-> Learn(s.seen, m, e.views, 1),
        res |-> IF e.op \in {"do", "join"}
                THEN LET o == ObjOf(m, e.s) IN IF o \in DOMAIN s.res THEN s.res ELSE Set(s.res, o, e.res)
                ELSE s.res]

(* views agree: the same text, the same numbers *)
Alike(a, b) == a.t = b.t /\ SeqNear(a.n, b.n, a.scale)
Looks(seen, o, v) == o \in DOMAIN seen => Alike(seen[o], v)

TJudge(s, e) ==
  IF e.op = "case" THEN <<>>
  ELSE LET m == Model(s.st, e)
           o == ObjOf(m, e.s)
           mine == SelectSeq(e.views, LAMBDA v : v.s = e.s)
           others == SelectSeq(e.views, LAMBDA v : v.s # e.s)
           see(v) == Looks(s.seen, ObjOf(m, v.s), v.v)
           odd(vs) == SelectSeq(vs, LAMBDA v : ~see(v))
           show(vs) == IF Len(odd(vs)) = 0 THEN <<>>
                       ELSE <<odd(vs)[1].s, "looks", odd(vs)[1].v, "should look",
                              s.seen[ObjOf(m, odd(vs)[1].s)]>>
           hidden == SelectSeq(e.views, LAMBDA v : v.err # "")
       IN <<Ck("C01.visible", hidden = <<>>, <<e.op, e.kind, hidden>>),
            Ck("C01.possible", e.err = "", <<e.op, e.kind, e.err>>),
            Ck("C01.untouched", \A i \in 1..Len(others) : see(others[i]), show(others))>>
          \o If(e.op = "write", <<
            Ck("C01.write_pure", \A i \in 1..Len(mine) : see(mine[i]), show(mine))>>)
          \o If(e.op = "read", <<
            Ck("C01.same", \A i \in 1..Len(mine) : see(mine[i]), show(mine))>>)
          \o If(e.op = "new" /\ o \in DOMAIN s.seen, <<
            Ck("C01.fresh", \A i \in 1..Len(mine) : see(mine[i]), show(mine))>>)
          \o If(e.op \in {"do", "join"} /\ o \in DOMAIN s.seen, <<
            Ck("C01.behaves", \A i \in 1..Len(mine) : see(mine[i]), show(mine)),
            Ck("C01.result", o \in DOMAIN s.res => Alike(s.res[o], e.res),
               <<"expected", IF o \in DOMAIN s.res THEN s.res[o] ELSE <<>>, "got", e.res>>)>>)

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
