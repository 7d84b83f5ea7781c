------------------------------ MODULE Packages ------------------------------
(***************************************************************************)
(* Packages of material: chemical (masses of compounds), particulate       *)
(* (masses of size classes) and slurries (size classes, water and a solid  *)
(* density).                                                               *)
(*                                                                         *)
(* A material is [comps, assays]: the names of its components, and per     *)
(* assay [fr, dens, h2o].  A package is [mat, m, w, d]: the component      *)
(* masses in the order of its material, the water and the solid density    *)
(* ("0" and "1" if the kind has none).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Big

Zeros(n) == [i \in 1..n |-> "0"]
MapS(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Solids(p) == DSum(p.m)
Mass(p) == DAdd(Solids(p), p.w)
Index(comps, c) == CHOOSE i \in 1..Len(comps) : comps[i] = c
Has(comps, c) == \E i \in 1..Len(comps) : comps[i] = c
Within(a, b) == \A i \in 1..Len(a) : Has(b, a[i])

EmptyOf(mat, comps) == [mat |-> mat, m |-> Zeros(Len(comps)), w |-> "0", d |-> "1"]
(* a package of a given mass according to an assay *)
Create(mat, assay, mass, normalise) ==
  LET t == DSum(assay.fr)
      tot == IF normalise /\ ~DIsZero(t) THEN t ELSE "1"
      w == DMul(mass, assay.h2o)
      s == DSub(mass, w)
  IN [mat |-> mat, m |-> MapS(LAMBDA f : DDiv(DMul(s, f), tot), assay.fr), w |-> w, d |-> assay.dens]

Scale(p, k) == [p EXCEPT !.m = MapS(LAMBDA x : DMul(x, k), @), !.w = DMul(@, k)]
Cleared(p) == [p EXCEPT !.m = Zeros(Len(@)), !.w = "0", !.d = "1"]
(* solid volumes add up *)
Blend(p, q) == LET s == Solids(p) t == Solids(q) IN
  IF DLe(DAdd(s, t), "0") THEN p.d ELSE DDiv(DAdd(s, t), DAdd(DDiv(s, p.d), DDiv(t, q.d)))
(* q's components, by name, are added to those of p *)
Add(p, q, cp, cq) ==
  [p EXCEPT !.m = [i \in 1..Len(cp) |-> IF Has(cq, cp[i]) THEN DAdd(@[i], q.m[Index(cq, cp[i])]) ELSE @[i]],
            !.w = DAdd(@, q.w), !.d = Blend(p, q)]
AddComp(p, i, x) == IF i = 0 THEN [p EXCEPT !.w = DAdd(@, x)] ELSE [p EXCEPT !.m[i] = DAdd(@, x)]
Content(p, i) == IF i = 0 THEN p.w ELSE p.m[i]

(* what is taken, and what is left *)
TakeMass(p, x) == LET t == Mass(p)  f == IF DIsZero(t) THEN "0" ELSE DDiv(x, t) IN
  [taken |-> Scale(p, f), left |-> Scale(p, DSub("1", f))]
TakeComp(p, i, x) ==
  [taken |-> AddComp(Scale(p, "0"), i, x), left |-> AddComp(p, i, DNeg(x))]
TakeAll(p, i) == TakeComp(p, i, Content(p, i))

(* ---- derived quantities ------------------------------------------------ *)
Volume(p) == DAdd(p.w, DDiv(Solids(p), p.d))
Density(p) == DDiv(Mass(p), Volume(p))
=============================================================================
