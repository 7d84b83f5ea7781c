---------------------------- MODULE MC_Business ----------------------------
(* The hierarchy of a business model: a model owns entities, entities and  *)
(* components own components, components own activities.                   *)
EXTENDS Tree, Json

CONSTANTS Names, MaxNode
VARIABLES t, nxt, hist
vars == <<t, nxt, hist>>

Init == /\ t = AddNode(EmptyTree, 1, 0, "M", "model", "none")
        /\ nxt = 2 /\ hist = <<>>
Log(op, n, nm, ok) == hist' = Append(hist, [op |-> op, node |-> n, name |-> nm, ok |-> ok, to |-> 0])
(* siblings of one kind carry distinct names *)
FreeKind(p, nm, kd) == \A k \in Elems(t.kids[p]) : t.name[k] = nm => t.kind[k] # kd
KidKind(p) == CASE t.kind[p] = "model" -> {"entity"}
                [] t.kind[p] = "entity" -> {"component"}
                [] t.kind[p] = "component" -> {"component", "activity"}
                [] OTHER -> {}
Create(p, nm, kd) == /\ nxt <= MaxNode /\ kd \in KidKind(p) /\ FreeKind(p, nm, kd)
                     /\ t' = AddNode(t, nxt, p, nm, kd, "")
                     /\ nxt' = nxt + 1
                     /\ Log(kd, p, nm, TRUE)
(* an activity that refers to a missing account is refused *)
Refuse(p, nm) == /\ t.kind[p] = "component" /\ nm = "A" /\ UNCHANGED <<t, nxt>>
                 /\ Log("activity", p, nm, FALSE)
NamedKind(p, nm, kd) == {k \in Elems(t.kids[p]) : t.name[k] = nm /\ t.kind[k] = kd}
Remove(p, nm) ==
  /\ t.kind[p] # "activity"
  /\ LET kd == IF t.kind[p] = "model" THEN "entity" ELSE "component"
         ks == NamedKind(p, nm, kd)
     IN t' = IF ks = {} THEN t
             ELSE LET k == CHOOSE x \in ks : TRUE IN
                  [t EXCEPT !.live = @ \ ({k} \cup Below(t, k)), !.kids = (p :> Without(@[p], k)) @@ @]
  /\ UNCHANGED nxt /\ Log("remove", p, nm, TRUE)
Ren(n, nm) == /\ (n = 1 \/ FreeKind(t.parent[n], nm, t.kind[n]))
              /\ t' = Rename(t, n, nm) /\ UNCHANGED nxt /\ Log("rename", n, nm, TRUE)
(* a component taken out of one place and put in another *)
Shift(n, p) ==
  /\ t.kind[n] = "component" /\ t.kind[p] \in {"entity", "component"}
  /\ p # t.parent[n] /\ CanMove(t, n, p) /\ FreeKind(p, t.name[n], "component")
  /\ t' = Move(t, n, p) /\ UNCHANGED nxt
  /\ hist' = Append(hist, [op |-> "move", node |-> n, name |-> t.name[n], ok |-> TRUE, to |-> p])
Next == \/ \E n, p \in t.live : Shift(n, p)
        \/ \E n \in t.live, nm \in Names :
          \/ \E kd \in {"entity", "component", "activity"} : Create(n, nm, kd)
          \/ Refuse(n, nm) \/ Remove(n, nm) \/ Ren(n, nm)
Spec == Init /\ [][Next]_vars
View == <<t, nxt>>
Emit == PrintT(<<"@@", ToJson(hist')>>)

Shape == WellFormed(t)
KindsNest == \A n \in t.live : n # 1 => t.kind[n] \in KidKind(t.parent[n])
(* an ancestor's path is a prefix of the path, at a slash *)
PathsNest == \A n \in t.live : \A m \in Below(t, n) : SPrefix(SCat(PathOf(t, n), "/"), PathOf(t, m))
=============================================================================
