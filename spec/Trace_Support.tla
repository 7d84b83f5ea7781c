--------------------------- MODULE Trace_Support ----------------------------
(* Traces of the supporting objects judged against Support.                *)
EXTENDS Support, TraceKit

TInit == <<>>
Given(g) == [x \in {g[i].x : i \in 1..Len(g)} |-> g[CHOOSE i \in 1..Len(g) : g[i].x = x].v]
TStep(s, e) ==
  CASE e.op = "case" -> <<>>
    [] e.op = "make" /\ e.err = "" -> Make(s, e.id, e.kind, Given(e.given))
    [] e.op = "put" /\ e.err = "" -> Put(s, e.id, e.x, e.v)
    [] OTHER -> s

SeenIs(o, x) == /\ Given(x.f) = o.f /\ Len(x.f) = Cardinality(DOMAIN o.f)
Objects(t, e) ==
  <<Ck("A01.objects", /\ {e.seen[i].id : i \in 1..Len(e.seen)} = DOMAIN t
                      /\ \A i \in 1..Len(e.seen) : SeenIs(t[e.seen[i].id], e.seen[i]),
       <<e, "expected", t>>),
    Ck("A01.call", \A i \in 1..Len(e.seen) : LET x == e.seen[i] IN
          t[x.id].kind \in {"variable", "group"} => x.call = Call(t, x.id), <<e, "expected", t>>)>>

Fields1(r) == [x \in {r.f[i].x : i \in 1..Len(r.f)} |-> r.f[CHOOSE i \in 1..Len(r.f) : r.f[i].x = x].v]
Answer(E, r) == IF r.key \in DOMAIN E
                THEN /\ r.err = "" /\ r.id = r.key /\ r.type = E[r.key].type
                     /\ Fields1(r) = E[r.key].f
                ELSE r.err # ""

TJudge(s, e) ==
  LET t == TStep(s, e) IN
  CASE e.op \in {"make", "put"} ->
         <<Ck("A01.accepted", e.err = "", e)>> \o If(e.err = "", Objects(t, e))
    [] e.op = "run" -> <<Ck("A01.accepted", e.err = "" /\ e.same, e)>> \o Objects(t, e)
    [] e.op = "hash" ->
         <<Ck("A01.hash", \A i, j \in 1..Len(e.res) :
              (e.res[i].kind = e.res[j].kind /\ t[e.res[i].id].f = t[e.res[j].id].f)
                => e.res[i].h = e.res[j].h, e)>> \o Objects(t, e)
    [] e.op = "bib" ->
         LET E == Entries(e.items) IN
         <<Ck("A01.bibliography", e.err = "" /\ \A i \in 1..Len(e.res) : Answer(E, e.res[i]),
              <<e.err, {<<e.res[i], "expected", IF e.res[i].key \in DOMAIN E THEN <<E[e.res[i].key]>> ELSE <<>>>> :
                 i \in {j \in 1..Len(e.res) : ~Answer(E, e.res[j])}}>>)>>
    [] e.op = "kept" ->
         <<Ck("A01.kept", e.err = "" /\ e.n = Cardinality(DOMAIN Entries(e.items)[e.key].f), e)>>
    [] e.op = "path" ->
         LET p == RelativeTo(e.mod, e.rel, e.abs) IN
         <<Ck("A01.path", e.err = "" /\ e.rooted /\ e.res = p, <<e, "expected", p>>)>>
    [] e.op = "date" ->
         <<Ck("A01.date", IF RealDate(e.y, e.m, e.d) THEN e.err = "" /\ e.exact /\ e.res = <<e.y, e.m, e.d>>
                          ELSE e.err # "", e)>>
    [] e.op = "given" -> <<Ck("A01.date", e.err = "" /\ e.same, e)>>
    [] OTHER -> <<>>

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
