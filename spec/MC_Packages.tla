---------------------------- MODULE MC_Packages ----------------------------
(* All short histories of package operations on three registers.           *)
EXTENDS Packages, Json
CONSTANTS MaxOps, Masses, Kinds

Mats == [A |-> <<"a", "b">>, B |-> <<"b">>, C |-> <<"c", "a">>]
Assays(k) == [A |-> [x |-> [fr |-> <<"0.6", "0.3">>, dens |-> IF k = "slurry" THEN "2" ELSE "1", h2o |-> IF k = "slurry" THEN "0.5" ELSE "0"],
                     z |-> [fr |-> <<"0", "1">>, dens |-> IF k = "slurry" THEN "4" ELSE "1", h2o |-> "0"]],
              B |-> [x |-> [fr |-> <<"0.5">>, dens |-> IF k = "slurry" THEN "5" ELSE "1", h2o |-> IF k = "slurry" THEN "0.2" ELSE "0"]],
              C |-> [x |-> [fr |-> <<"0.25", "0.75">>, dens |-> "1", h2o |-> "0"]]]
Pairs == {<<"A", "x">>, <<"A", "z">>, <<"B", "x">>, <<"C", "x">>}
Regs == 1..3
Nil == [mat |-> "", m |-> <<>>, w |-> "0", d |-> "1"]

VARIABLES kind, reg, n, hist
vars == <<kind, reg, n, hist>>
Live(r) == reg[r].mat # ""
Comps(r) == Mats[reg[r].mat]
Idx(r) == (IF kind = "slurry" THEN {0} ELSE {}) \cup 1..Len(Comps(r))

Init == kind \in Kinds /\ reg = [r \in Regs |-> Nil] /\ n = 0 /\ hist = <<[op |-> "kind", k |-> kind]>>
Step(o, new) == n < MaxOps /\ n' = n + 1 /\ reg' = new /\ hist' = Append(hist, o) /\ UNCHANGED kind
(* operation results go to the first register that is not an operand *)
Out(a, b) == CHOOSE r \in Regs : r # a /\ r # b
New == \E mn \in Pairs, x \in Masses, norm \in BOOLEAN, r \in {1, 2} :
  /\ ~Live(r) /\ (r = 2 => Live(1))
  /\ Step([op |-> "new", r |-> r, mat |-> mn[1], assay |-> mn[2], mass |-> x, norm |-> norm],
          [reg EXCEPT ![r] = Create(mn[1], Assays(kind)[mn[1]][mn[2]], x, norm)])
New0 == \E mn \in {"A"}, r \in {1, 2} :
  /\ ~Live(r) /\ (r = 2 => Live(1))
  /\ Step([op |-> "empty", r |-> r, mat |-> mn], [reg EXCEPT ![r] = EmptyOf(mn, Mats[mn])])
AddP == \E a, b \in Regs : Live(a) /\ Live(b) /\
  LET ok == Within(Comps(b), Comps(a)) IN
  \/ Step([op |-> "add", a |-> a, b |-> b, out |-> Out(a, b)],
          IF ok THEN [reg EXCEPT ![Out(a, b)] = Add(reg[a], reg[b], Comps(a), Comps(b))] ELSE reg)
  \/ Step([op |-> "addto", a |-> a, b |-> b],
          IF ok THEN [reg EXCEPT ![a] = Add(reg[a], reg[b], Comps(a), Comps(b))] ELSE reg)
AddC == \E a \in Regs, x \in Masses : Live(a) /\ \E i \in Idx(a) :
  \/ Step([op |-> "addcomp", a |-> a, i |-> i, x |-> x, out |-> Out(a, a)], [reg EXCEPT ![Out(a, a)] = AddComp(reg[a], i, x)])
  \/ Step([op |-> "addtocomp", a |-> a, i |-> i, x |-> x], [reg EXCEPT ![a] = AddComp(@, i, x)])
Mul == \E a \in Regs, k \in {"0", "0.5", "-1"} : Live(a) /\
  Step([op |-> "mul", a |-> a, k |-> k, out |-> Out(a, a)],
       IF DLt(k, "0") THEN reg ELSE [reg EXCEPT ![Out(a, a)] = Scale(reg[a], k)])
Take == \E a \in Regs : Live(a) /\
  \/ \E x \in Masses : LET t == TakeMass(reg[a], x) IN
       Step([op |-> "takemass", a |-> a, x |-> x, out |-> Out(a, a)],
            IF DGt(x, Mass(reg[a])) THEN reg ELSE [reg EXCEPT ![a] = t.left, ![Out(a, a)] = t.taken])
  \/ \E x \in Masses, i \in Idx(a) : LET t == TakeComp(reg[a], i, x) IN
       Step([op |-> "takecomp", a |-> a, i |-> i, x |-> x, out |-> Out(a, a)],
            IF DGt(x, Content(reg[a], i)) THEN reg ELSE [reg EXCEPT ![a] = t.left, ![Out(a, a)] = t.taken])
  \/ \E i \in Idx(a) \ {0} : LET t == TakeAll(reg[a], i) IN
       Step([op |-> "takeall", a |-> a, i |-> i, out |-> Out(a, a)], [reg EXCEPT ![a] = t.left, ![Out(a, a)] = t.taken])
Other == \E a \in Regs : Live(a) /\
  \/ Step([op |-> "clear", a |-> a], [reg EXCEPT ![a] = Cleared(@)])
  \/ Step([op |-> "clone", a |-> a, out |-> Out(a, a)], [reg EXCEPT ![Out(a, a)] = reg[a]])
Next == New \/ New0 \/ AddP \/ AddC \/ Mul \/ Take \/ Other
Spec == Init /\ [][Next]_vars
View == <<kind, reg, n>>
Emit == PrintT(<<"@@", ToJson(hist')>>)

(* ---- the laws ---------------------------------------------------------- *)
NeverNegative == \A r \in Regs : Live(r) => DGe(reg[r].w, "0") /\ \A i \in 1..Len(reg[r].m) : DGe(reg[r].m[i], "0")
Eq(a, b) == DClose(a, b, "1e-50", "1")
(* taking splits a package: mass, every component and volume are kept *)
Splits == \A r \in Regs : Live(r) => \A x \in Masses :
  DLe(x, Mass(reg[r])) => LET t == TakeMass(reg[r], x) IN
     /\ DIsZero(Mass(reg[r])) \/ Eq(Mass(t.taken), x)
     /\ Eq(DAdd(Mass(t.taken), Mass(t.left)), Mass(reg[r]))
     /\ \A i \in 1..Len(reg[r].m) : Eq(DAdd(t.taken.m[i], t.left.m[i]), reg[r].m[i])
     /\ Eq(DAdd(Volume(t.taken), Volume(t.left)), Volume(reg[r]))
(* adding keeps mass and volume and does not depend on the order *)
Adds == \A a, b \in Regs : Live(a) /\ Live(b) /\ Within(Comps(b), Comps(a)) =>
  LET s == Add(reg[a], reg[b], Comps(a), Comps(b)) IN
  /\ Eq(Mass(s), DAdd(Mass(reg[a]), Mass(reg[b])))
  /\ Eq(Volume(s), DAdd(Volume(reg[a]), Volume(reg[b])))
  /\ Within(Comps(a), Comps(b)) =>
       LET t == Add(reg[b], reg[a], Comps(b), Comps(a)) IN Eq(Density(s), Density(t)) \/ DIsZero(Mass(s))
Scales == \A r \in Regs : Live(r) => Eq(Mass(Scale(reg[r], "0.5")), DMul("0.5", Mass(reg[r])))
=============================================================================
