----------------------------- MODULE MC_Enthalpy -----------------------------
(* All short histories of packages with energy, for compounds of constant    *)
(* heat capacity, for which the first law is solved exactly.                 *)
EXTENDS Enthalpy, Json
CONSTANTS MaxOps, MassSet, TempSet

Mats == [A |-> <<"a", "b">>, B |-> <<"b">>, C |-> <<"b", "a", "c">>]
Assay == [A |-> <<"0.5", "0.3">>, B |-> <<"1">>, C |-> <<"0.2", "0.2", "0.6">>]
H0 == [a |-> "-2", b |-> "3", c |-> "-0.5"]
Cpc == [a |-> "0.01", b |-> "0.02", c |-> "0.005"]
HComp(c, T) == DAdd(H0[c], DMul(Cpc[c], T))
HContent(p, T) == LET cs == Mats[p.mat] IN DSum([i \in 1..Len(cs) |-> DMul(p.m[i], HComp(cs[i], T))])
TOf(p) == LET cs == Mats[p.mat]
              c == DSum([i \in 1..Len(cs) |-> DMul(p.m[i], Cpc[cs[i]])])
              h == DSum([i \in 1..Len(cs) |-> DMul(p.m[i], H0[cs[i]])])
          IN IF DIsZero(c) THEN "25" ELSE DDiv(DSub(p.H, h), c)
(* the first law *)
Law(p) == LET q == IF p.T = Solve THEN [p EXCEPT !.T = TOf(p)] ELSE p IN
          IF q.H = At THEN [q EXCEPT !.H = HContent(q, q.T)] ELSE q

Regs == 1..3
Nil == [mat |-> "", m |-> <<>>, P |-> "1", T |-> "25", H |-> "0"]
VARIABLES reg, n, hist
vars == <<reg, n, hist>>
Live(r) == reg[r].mat # ""
Comps(r) == Mats[reg[r].mat]
Init == reg = [r \in Regs |-> Nil] /\ n = 0 /\ hist = <<>>
Step(o, new) == n < MaxOps /\ n' = n + 1 /\ reg' = new /\ hist' = Append(hist, o)
Out(a, b) == CHOOSE r \in Regs : r # a /\ r # b
New == \E mat \in {"A", "B", "C"}, x \in MassSet, T \in TempSet, r \in {1, 2} :
  /\ ~Live(r) /\ (r = 2 => Live(1))
  /\ Step([op |-> "new", r |-> r, mat |-> mat, mass |-> x, T |-> T], [reg EXCEPT ![r] = Law(Create(mat, Assay[mat], x, TRUE, "2", T))])
AddP == \E a, b \in Regs : Live(a) /\ Live(b) /\
  Step([op |-> "add", a |-> a, b |-> b, out |-> Out(a, b)],
       IF Within(Comps(b), Comps(a)) THEN [reg EXCEPT ![Out(a, b)] = Law(Mix(reg[a], reg[b], Comps(a), Comps(b)))] ELSE reg)
AddC == \E a \in Regs, x \in MassSet : Live(a) /\ \E i \in 1..Len(Comps(a)) :
  \/ Step([op |-> "addcomp", a |-> a, i |-> i, x |-> x, out |-> Out(a, a)], [reg EXCEPT ![Out(a, a)] = Law(AddSame(reg[a], i, x))])
  \/ \E T \in TempSet :
       Step([op |-> "addhot", a |-> a, i |-> i, x |-> x, T |-> T, out |-> Out(a, a)],
            [reg EXCEPT ![Out(a, a)] = Law(AddHot(reg[a], i, x, DMul(x, HComp(Comps(a)[i], T))))])
Mul == \E a \in Regs, k \in {"0", "0.5"} : Live(a) /\ Step([op |-> "mul", a |-> a, k |-> k, out |-> Out(a, a)], [reg EXCEPT ![Out(a, a)] = Scale(reg[a], k)])
Two(a, t) == [reg EXCEPT ![a] = Law(t.left), ![Out(a, a)] = Law(t.taken)]
Take == \E a \in Regs : Live(a) /\
  \/ \E x \in MassSet : Step([op |-> "takemass", a |-> a, x |-> x, out |-> Out(a, a)],
                             IF DGt(x, Mass(reg[a])) THEN reg ELSE Two(a, TakeMass(reg[a], x)))
  \/ \E x \in MassSet, i \in 1..Len(Comps(a)) : Step([op |-> "takecomp", a |-> a, i |-> i, x |-> x, out |-> Out(a, a)],
                             IF DGt(x, reg[a].m[i]) THEN reg ELSE Two(a, TakeComp(reg[a], i, x)))
  \/ \E i \in 1..Len(Comps(a)) : Step([op |-> "takeall", a |-> a, i |-> i, out |-> Out(a, a)], Two(a, TakeAll(reg[a], i)))
  \/ \E mat \in {"B", "C"} : Step([op |-> "takemat", a |-> a, mat |-> mat, out |-> Out(a, a)], Two(a, TakeMat(reg[a], Comps(a), mat, Mats[mat])))
Other == \E a \in Regs : Live(a) /\
  \/ Step([op |-> "clear", a |-> a], [reg EXCEPT ![a] = Cleared(@)])
  \/ Step([op |-> "clone", a |-> a, out |-> Out(a, a)], [reg EXCEPT ![Out(a, a)] = reg[a]])
  \/ \E T \in TempSet : Step([op |-> "setT", a |-> a, T |-> T], [reg EXCEPT ![a] = Law(SetT(@, T))])
  \/ DLt("0", Mass(reg[a])) /\
       Step([op |-> "setH", a |-> a, T |-> "700"], [reg EXCEPT ![a] = Law(SetH(@, HContent(@, "700")))])
Next == New \/ AddP \/ AddC \/ Mul \/ Take \/ Other
Spec == Init /\ [][Next]_vars
View == <<reg, n>>
Emit == PrintT(<<"@@", ToJson(hist')>>)

Eq(a, b) == DClose(a, b, "1e-45", "1")
(* the enthalpy of a package is that of its content at its temperature *)
FirstLaw == \A r \in Regs : Live(r) => Eq(reg[r].H, HContent(reg[r], reg[r].T))
NeverNegative == \A r \in Regs : Live(r) => \A i \in 1..Len(reg[r].m) : DGe(reg[r].m[i], "0")
(* splitting keeps mass, energy and temperature *)
Splits == \A r \in Regs : Live(r) =>
  \A t \in {TakeMass(reg[r], x) : x \in {y \in MassSet : DLe(y, Mass(reg[r]))}}
          \cup {TakeAll(reg[r], i) : i \in 1..Len(Comps(r))} \cup {TakeMat(reg[r], Comps(r), "C", Mats["C"])} :
     LET a == Law(t.taken)  b == Law(t.left) IN
     Eq(DAdd(Mass(a), Mass(b)), Mass(reg[r])) /\ Eq(DAdd(a.H, b.H), reg[r].H) /\ a.T = b.T /\ b.T = reg[r].T
(* mixing ends between the two temperatures, whatever the order *)
Mixes == \A a, b \in Regs : Live(a) /\ Live(b) /\ Within(Comps(b), Comps(a)) /\ DLt("0", DAdd(Mass(reg[a]), Mass(reg[b]))) =>
  LET p == reg[a]  q == reg[b]  s == Law(Mix(p, q, Comps(a), Comps(b))) IN
  /\ Eq(Mass(s), DAdd(Mass(p), Mass(q))) /\ Eq(s.H, DAdd(p.H, q.H))
  /\ DLt("0", Mass(p)) /\ DLt("0", Mass(q)) =>
       /\ DLe(DSub(DMin(p.T, q.T), "1e-40"), s.T) /\ DLe(s.T, DAdd(DMax(p.T, q.T), "1e-40"))
  /\ Within(Comps(a), Comps(b)) => Eq(s.T, Law(Mix(q, p, Comps(b), Comps(a))).T)
=============================================================================
