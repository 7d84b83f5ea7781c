--------------------------- MODULE Trace_Business ---------------------------
(* Traces of TimeBasedModel / Entity / Component / Activity against Tree.  *)
EXTENDS Tree, TraceKit

TInit == [t |-> EmptyTree, loose |-> <<>>]

NamedKind(t, p, nm, kd) == {k \in Elems(t.kids[p]) : t.name[k] = nm /\ t.kind[k] = kd}
RemoveKind(t, p, nm, kd) ==
  LET ks == NamedKind(t, p, nm, kd) IN
  IF ks = {} THEN t
  ELSE LET k == CHOOSE x \in ks : TRUE IN
       [t EXCEPT !.live = @ \ ({k} \cup Below(t, k)), !.kids = (p :> Without(@[p], k)) @@ @]

RECURSIVE Grow(_, _, _)
Grow(t, parts, i) ==
  IF i > Len(parts) THEN t
  ELSE Grow(AddNode(t, parts[i].id, parts[i].par, parts[i].name, "component", ""), parts, i + 1)

TStepT(t, e) ==
  CASE e.op = "root" -> AddNode(t, e.id, 0, e.name, e.kind, e.base)
    [] e.op \in {"entity", "component"} ->
         IF e.err = "" THEN AddNode(t, e.id, e.node, e.name, e.op, "") ELSE t
    (* what was built by hand takes its place with everything below it *)
    [] e.op = "attach" -> Grow(AddNode(t, e.id, e.node, e.name, e.kind, ""), e.parts, 1)
    [] e.op = "activity" -> IF e.valid THEN AddNode(t, e.id, e.node, e.name, e.op, "") ELSE t
    [] e.op = "remove" -> RemoveKind(t, e.node, e.name, e.kind)
    [] e.op = "move" -> Move(t, e.node, e.to)
    [] e.op = "rename" -> Rename(t, e.node, e.name)
    [] e.op = "setparent" -> [t EXCEPT !.base = (e.node :> e.base) @@ @]
    [] OTHER -> t
TStep(s, e) == IF e.op = "case" THEN TInit ELSE [s EXCEPT !.t = TStepT(@, e)]

Want(t, f, nm, kd) == LET ks == NamedKind(t, f, nm, kd) IN IF ks = {} THEN 0 ELSE CHOOSE x \in ks : TRUE

TJudge(s, e) ==
  LET t == TStep(s, e).t IN
  IF e.op = "case" THEN <<>>
  ELSE
    <<Ck("B03.tree", /\ {e.nodes[i].id : i \in 1..Len(e.nodes)} = t.live
                     /\ Len(e.nodes) = Cardinality(t.live)
                     /\ \A i \in 1..Len(e.nodes) : LET x == e.nodes[i] IN
                          Elems(x.kids) = Elems(t.kids[x.id]) /\ Len(x.kids) = Len(t.kids[x.id]),
         <<t.kids, e.err>>),
      Ck("B03.path", \A i \in 1..Len(e.nodes) : LET x == e.nodes[i] IN
                       x.id \in t.live => x.path = PathOf(t, x.id) /\ x.name = t.name[x.id],
         {<<e.nodes[i].path, PathOf(t, e.nodes[i].id)>> : i \in {j \in 1..Len(e.nodes) :
              e.nodes[j].id \in t.live /\ e.nodes[j].path # PathOf(t, e.nodes[j].id)}}),
      Ck("B03.lookup", \A i \in 1..Len(e.probes) : LET p == e.probes[i] IN
                         p.res = Want(t, p.from, p.name, p.kind), e.probes)>>
    \o If(e.op = "activity" /\ e.valid, <<Ck("B03.accepted", e.err = "", e.err)>>)
    \o If(e.op = "activity" /\ ~e.valid,
          <<Ck("B03.refused", e.err # "", "activity on a missing account was accepted"),
            Ck("B03.refused_unchanged", e.apath0 = e.apath, e.apath)>>)
    \o If(e.op # "activity", <<Ck("B03.accepted", e.err = "", e.err)>>)

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
