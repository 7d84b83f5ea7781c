------------------------------ MODULE MC_Chart ------------------------------
(* The chart of accounts: all trees reachable by creating, renaming and    *)
(* removing sub accounts under two top level categories.                   *)
EXTENDS Tree, Json

CONSTANTS Names, MaxNode
Roots == <<"Sales", "Expense">>
VARIABLES t, nxt, hist
vars == <<t, nxt, hist>>

Init == /\ t = AddNode(AddNode(EmptyTree, 1, 0, Roots[1], "revenue", "none"),
                       2, 0, Roots[2], "expense", "none")
        /\ nxt = 3
        /\ hist = <<>>
Log(op, n, nm) == hist' = Append(hist, [op |-> op, node |-> n, name |-> nm])
Create(p, nm) == /\ nxt <= MaxNode /\ FreeName(t, p, nm)
                 /\ t' = AddNode(t, nxt, p, nm, t.kind[p], "")
                 /\ nxt' = nxt + 1 /\ Log("create", p, nm)
Remove(p, nm) == t' = RemoveChild(t, p, nm) /\ Log("remove", p, nm) /\ UNCHANGED nxt
(* in this model one main account can be renamed, to one name *)
Ren(n, nm) == /\ n > 2 \/ (n = 1 /\ nm = "A")
              /\ FreeName(t, t.parent[n], nm)
              /\ t' = Rename(t, n, nm) /\ Log("rename", n, nm) /\ UNCHANGED nxt
Next == \E n \in t.live, nm \in Names : Create(n, nm) \/ Remove(n, nm) \/ Ren(n, nm)
Spec == Init /\ [][Next]_vars
View == <<t, nxt>>
Emit == PrintT(<<"@@", ToJson(hist')>>)

Shape == WellFormed(t)
Unique == PathsUnique(t)
(* looking up the path of an account finds that account, from any ancestor *)
LookupInverse == \A n \in t.live :
  LET RECURSIVE Parts(_, _)
      Parts(m, stop) == IF m = stop THEN <<>> ELSE Append(Parts(t.parent[m], stop), t.name[m])
  IN /\ Walk(t, 0, Parts(n, 0)) = n
     /\ \A a \in t.live : n \in Below(t, a) => Walk(t, a, Parts(n, a)) = n
(* an account has the type of the category it lies in *)
TypeInherited == \A n \in t.live : \A m \in Below(t, n) : t.kind[m] = t.kind[n]
(* renaming moves paths and nothing else *)
RenameLocal == [][\A n \in t.live \cap t'.live : t'.parent[n] = t.parent[n] /\ t'.kind[n] = t.kind[n]]_vars
=============================================================================
