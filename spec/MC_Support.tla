---------------------------- MODULE MC_Support -----------------------------
(***************************************************************************)
(* Design check of Support, and generator of histories of making and       *)
(* changing projects, variables and process models.                        *)
(***************************************************************************)
EXTENDS Support, Json
Elems(q) == {q[i] : i \in 1..Len(q)}
CONSTANTS Depth, Kinds, Ids, Values
VARIABLES st, hist
vars == <<st, hist>>

Ev(op, id, kind, x, v) == [op |-> op, id |-> id, kind |-> kind, x |-> x, v |-> v]
Init == st = <<>> /\ hist = <<>>
Step(new, e) == st' = new /\ hist' = Append(hist, e)
Settable(kind) == Fields(kind) \cup
  (IF kind \in {"project", "variable", "group"} THEN {} ELSE {"parameters.rate", "input_variables.rate"})
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E i \in Ids, k \in Kinds : i \notin DOMAIN st /\ (\A j \in Ids : j < i => j \in DOMAIN st)
          /\ Step(Make(st, i, k, "name" :> "str a"), Ev("make", i, k, "", ""))
     \/ \E i \in DOMAIN st : \E x \in Settable(st[i].kind) \ {"units", "category"}, v \in Values :
          Step(Put(st, i, x, v), Ev("put", i, "", x, v))
View == st
Spec == Init /\ [][Next]_vars
Emit == PrintT(<<"@@", ToJson(hist')>>)

(* --- properties of the design ------------------------------------------ *)
Last == hist'[Len(hist')]
(* an operation changes one field of one object *)
Frame == [][\A i \in DOMAIN st :
   /\ st'[i].kind = st[i].kind
   /\ \A x \in DOMAIN st'[i].f : (x \notin DOMAIN st[i].f \/ st'[i].f[x] # st[i].f[x])
        => Last.op = "put" /\ Last.id = i /\ Last.x = x /\ Last.v = st'[i].f[x]]_vars
(* every field holds what was put there last, or what it began with *)
Written == \A i \in DOMAIN st : \A x \in DOMAIN st[i].f :
  LET P == {n \in 1..Len(hist) : hist[n].op = "put" /\ hist[n].id = i /\ hist[n].x = x}
  IN IF P = {} THEN st[i].f[x] = (IF x = "name" THEN "str a" ELSE NewObj(st[i].kind, <<>>).f[x])
     ELSE \E n \in P : (\A k \in P : k <= n) /\ st[i].f[x] = hist[n].v
Complete == \A i \in DOMAIN st : Fields(st[i].kind) \subseteq DOMAIN st[i].f

(* --- laws of paths, bibliographies and dates ---------------------------- *)
Seg == {"a", "b", ".", "..", ""}
RelPaths == UNION {[1..n -> Seg] : n \in 0..3}
Mod == <<"x", "y", "m.py">>
ASSUME \A p \in RelPaths :
  LET q == RelativeTo(Mod, p, FALSE) IN
  /\ Resolve(<<>>, q, 1) = q                               \* resolved already
  /\ \A s \in Elems(q) : s \notin {".", "..", ""}
  /\ RelativeTo(Mod, Append(Append(p, "c"), ".."), FALSE) = q
  /\ RelativeTo(Mod, p \o <<"">>, FALSE) = q
  /\ RelativeTo(Mod, q, TRUE) = q
ASSUME RelativeTo(Mod, <<"data", "f">>, FALSE) = <<"x", "y", "data", "f">>

E1 == [k |-> "entry", type |-> "Book", key |-> "A1", v |-> <<>>,
       fields |-> <<[f |-> "Title", v |-> <<"t">>, ref |-> ""], [f |-> "note", v |-> <<>>, ref |-> "s"]>>]
E2 == [k |-> "entry", type |-> "report", key |-> "b", v |-> <<>>, fields |-> <<[f |-> "x", v |-> <<"1">>, ref |-> ""]>>]
S1 == [k |-> "string", type |-> "", key |-> "s", v |-> <<"one", "two">>, fields |-> <<>>]
S2 == [S1 EXCEPT !.v = <<"three">>]
C1 == [k |-> "comment", type |-> "", key |-> "", v |-> <<>>, fields |-> <<>>]
ASSUME Entries(<<S1, E1, E2>>) = Entries(<<E2, C1, S1, C1, E1>>)
ASSUME Entries(<<S1, E1, S2>>) = Entries(<<S1, E1>>) /\ Entries(<<S1, S2, E1>>)["A1"].f["note"] = <<"three">>
ASSUME DOMAIN Entries(<<S1, E1, E2>>) = {"A1", "b"}
ASSUME Entries(<<S1, E1>>)["A1"] = [type |-> "book", f |-> [title |-> <<"t">>, note |-> <<"one", "two">>]]
ASSUME Lower("AbZ-9") = "abz-9"
ASSUME Cardinality({d \in 0..32 : RealDate(2100, 2, d)}) = 28 /\ RealDate(2000, 2, 29) /\ ~RealDate(2019, 4, 31)
=============================================================================
