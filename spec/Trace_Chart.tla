---------------------------- MODULE Trace_Chart ----------------------------
(* Traces of GeneralLedgerStructure / GeneralLedgerAccount against Tree.   *)
EXTENDS Tree, TraceKit

TInit == EmptyTree

RECURSIVE AddAll(_, _, _)
AddAll(t, ns, i) ==
  IF i > Len(ns) THEN t
  ELSE AddAll(AddNode(t, ns[i].id, ns[i].par, ns[i].name, ns[i].kind,
                      IF ns[i].par = 0 THEN "none" ELSE ""), ns, i + 1)

TStep(t, e) ==
  CASE e.op = "chart" -> AddAll(EmptyTree, e.nodes, 1)
    [] e.op = "create" -> IF e.err = "" THEN AddNode(t, e.id, e.node, e.name, t.kind[e.node], "") ELSE t
    [] e.op = "remove" -> RemoveChild(t, e.node, e.name)
    [] e.op = "rename" -> Rename(t, e.node, e.name)
    [] OTHER -> t

(* the observed forest is the modelled one *)
SameNodes(t, e) == {e.nodes[i].id : i \in 1..Len(e.nodes)} = t.live
                   /\ Len(e.nodes) = Cardinality(t.live)
PathsOk(t, e) == \A i \in 1..Len(e.nodes) : LET x == e.nodes[i] IN
                    x.id \in t.live => x.path = PathOf(t, x.id) /\ x.name = t.name[x.id]
KidsOk(t, e) == \A i \in 1..Len(e.nodes) : LET x == e.nodes[i] IN
                    x.id \in t.live => Elems(x.kids) = Elems(t.kids[x.id]) /\ Len(x.kids) = Len(t.kids[x.id])
TypesOk(t, e) == \A i \in 1..Len(e.nodes) : LET x == e.nodes[i] IN
                    x.id \in t.live => x.kind = t.kind[x.id]

Probes(t, e, from) ==
  \A i \in 1..Len(e.probes) : LET p == e.probes[i] IN
     p.res = Walk(t, p.from, p.parts)
BadProbe(t, e) == LET S == {i \in 1..Len(e.probes) : e.probes[i].res # Walk(t, e.probes[i].from, e.probes[i].parts)}
                  IN IF S = {} THEN <<>> ELSE LET p == e.probes[CHOOSE i \in S : TRUE] IN <<p, "expected", Walk(t, p.from, p.parts)>>

TJudge(s, e) ==
  LET t == TStep(s, e) IN
  IF e.op = "case" THEN <<>>
  ELSE IF e.op = "validate" THEN
    LET missing == \E i \in 1..Len(e.names) : Walk(t, 0, e.names[i]) = 0
    IN <<Ck("B02.validate", e.err = (IF missing THEN "ValueError" ELSE ""), <<missing, e.err>>)>>
  ELSE IF e.op = "descendants" THEN
    <<Ck("B02.descendants", e.err = "" /\ Len(e.res) = Cardinality(Below(t, e.node))
                            /\ Elems(e.res) = Below(t, e.node), Below(t, e.node))>>
  ELSE <<Ck("B02.accepted", e.err = "", e.err),
         Ck("B02.tree", SameNodes(t, e) /\ KidsOk(t, e), t.kids),
         Ck("B02.path", PathsOk(t, e), e.nodes),
         Ck("B02.type", TypesOk(t, e), e.nodes),
         Ck("B02.lookup", Probes(t, e, 0), BadProbe(t, e))>>

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
