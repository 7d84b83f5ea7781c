-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Named trees with slash-separated paths: the chart of accounts of a      *)
(* general ledger, and the model / entity / component / activity hierarchy *)
(* of a business model.  Nodes are numbered in the order of their          *)
(* creation.                                                               *)
(*                                                                         *)
(* A tree t is a record                                                    *)
(*   live   the set of nodes that are part of the tree                     *)
(*   name, kind, parent   functions on the nodes (parent 0: a root)        *)
(*   kids   function from 0 (the forest) and nodes to sequences of nodes   *)
(*   base   the path a root's own path starts from                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Big

RECURSIVE PathOf(_, _)
(* The path of a node is its parent's path, a slash, and its name. *)
PathOf(t, n) ==
  IF t.parent[n] = 0
  THEN IF t.base[n] = "none" THEN t.name[n]
       ELSE SCat(SCat(t.base[n], "/"), t.name[n])
  ELSE SCat(SCat(PathOf(t, t.parent[n]), "/"), t.name[n])

Elems(s) == {s[i] : i \in 1..Len(s)}

(* children of n called nm; siblings carry distinct names *)
Named(t, n, nm) == {k \in Elems(t.kids[n]) : t.name[k] = nm}
Child(t, n, nm) == LET s == Named(t, n, nm) IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE

RECURSIVE Walk(_, _, _)
(* follow a sequence of names from node n (0: the forest); 0 if it leads nowhere *)
Walk(t, n, parts) ==
  IF parts = <<>> THEN n
  ELSE LET k == Child(t, n, Head(parts)) IN
       IF k = 0 THEN 0 ELSE Walk(t, k, Tail(parts))

RECURSIVE Below(_, _)
(* all proper descendants of n *)
Below(t, n) == Elems(t.kids[n]) \cup UNION {Below(t, k) : k \in Elems(t.kids[n])}

FreeName(t, n, nm) == Named(t, n, nm) = {}

AddNode(t, id, par, nm, kd, bs) ==
  [t EXCEPT !.live = @ \cup {id},
            !.name = (id :> nm) @@ @,
            !.kind = (id :> kd) @@ @,
            !.parent = (id :> par) @@ @,
            !.base = (id :> bs) @@ @,
            !.kids = (id :> <<>>) @@ (par :> Append(@[par], id)) @@ @]
  
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

(* Removing a child that does not exist changes nothing. *)
RemoveChild(t, par, nm) ==
  LET k == Child(t, par, nm) IN
  IF k = 0 THEN t
  ELSE [t EXCEPT !.live = @ \ ({k} \cup Below(t, k)),
                 !.kids = (par :> Without(@[par], k)) @@ @]

Rename(t, n, nm) == [t EXCEPT !.name = (n :> nm) @@ @]

(* n with all below it becomes the last child of p *)
Move(t, n, p) ==
  LET q == t.parent[n]
      k == (q :> Without(t.kids[q], n)) @@ t.kids IN
  [t EXCEPT !.kids = (p :> Append(k[p], n)) @@ k, !.parent = (n :> p) @@ @]
CanMove(t, n, p) == n # p /\ p \notin Below(t, n)

EmptyTree == [live |-> {}, name |-> (0 :> ""), kind |-> (0 :> ""),
              parent |-> (0 :> 0), kids |-> (0 :> <<>>), base |-> (0 :> "")]

(* --- properties -------------------------------------------------------- *)
(* each live node is the child of exactly one live node or a root *)
WellFormed(t) ==
  /\ \A n \in t.live : Cardinality({p \in t.live \cup {0} : n \in Elems(t.kids[p])}) = 1
  /\ \A n \in t.live : n \in Elems(t.kids[t.parent[n]])
  /\ \A n \in t.live \cup {0} : Elems(t.kids[n]) \subseteq t.live
(* distinct live nodes have distinct paths *)
PathsUnique(t) == \A m, n \in t.live : PathOf(t, m) = PathOf(t, n) => m = n
=============================================================================
