------------------------------ MODULE Enthalpy ------------------------------
(***************************************************************************)
(* Packages (or streams) of material that carry energy.                    *)
(*                                                                         *)
(* A package is [mat, m, P, T, H]: material, compound masses, pressure,    *)
(* temperature and enthalpy.  Which enthalpy a mass of a compound has at a *)
(* temperature is the parameter HOf(c, T); the enthalpy of a package is    *)
(* always that of its content at its temperature, and operations conserve  *)
(* mass of every compound and energy.  A temperature that follows from an  *)
(* energy balance is the solution of the first law and is written Solve.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Big

Zeros(n) == [i \in 1..n |-> "0"]
MapS(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Mass(p) == DSum(p.m)
Index(comps, c) == CHOOSE i \in 1..Len(comps) : comps[i] = c
Has(comps, c) == \E i \in 1..Len(comps) : comps[i] = c
Within(a, b) == \A i \in 1..Len(a) : Has(b, a[i])
Solve == "?"
At == "="        \* the enthalpy of the content at the temperature

(* ---- the operations: T and H may be Solve or At ------------------------ *)
EmptyOf(mat, n, P, T) == [mat |-> mat, m |-> Zeros(n), P |-> P, T |-> T, H |-> "0"]
Create(mat, fr, mass, normalise, P, T) ==
  LET t == DSum(fr)  tot == IF normalise THEN t ELSE "1" IN
  [mat |-> mat, m |-> MapS(LAMBDA f : DDiv(DMul(mass, f), tot), fr), P |-> P, T |-> T, H |-> At]
Scale(p, k) == [p EXCEPT !.m = MapS(LAMBDA x : DMul(x, k), @), !.H = DMul(@, k)]
Mix(p, q, cp, cq) ==
  [p EXCEPT !.m = [i \in 1..Len(cp) |-> IF Has(cq, cp[i]) THEN DAdd(@[i], q.m[Index(cq, cp[i])]) ELSE @[i]],
            !.H = DAdd(@, q.H), !.T = Solve]
(* an amount of compound i at the temperature of the package *)
AddSame(p, i, x) == [p EXCEPT !.m[i] = DAdd(@, x), !.H = At]
(* an amount of compound i bringing the enthalpy h *)
AddHot(p, i, x, h) == [p EXCEPT !.m[i] = DAdd(@, x), !.H = DAdd(@, h), !.T = Solve]
TakeMass(p, x) ==
  LET t == Mass(p)  f == IF DIsZero(t) THEN "0" ELSE DDiv(x, t) IN
  [taken |-> Scale(p, f), left |-> Scale(p, DSub("1", f))]
TakeComp(p, i, x) ==
  [taken |-> [p EXCEPT !.m = [j \in 1..Len(@) |-> IF j = i THEN x ELSE "0"], !.H = At],
   left |-> [p EXCEPT !.m[i] = DSub(@, x), !.H = At]]
TakeAll(p, i) == TakeComp(p, i, p.m[i])
(* all of the compounds of another material *)
TakeMat(p, cp, mat, cm) ==
  [taken |-> [mat |-> mat, m |-> [j \in 1..Len(cm) |-> IF Has(cp, cm[j]) THEN p.m[Index(cp, cm[j])] ELSE "0"],
              P |-> p.P, T |-> p.T, H |-> At],
   left |-> [p EXCEPT !.m = [i \in 1..Len(cp) |-> IF Has(cm, cp[i]) THEN "0" ELSE @[i]], !.H = At]]
Cleared(p) == [p EXCEPT !.m = Zeros(Len(@)), !.P = "1", !.T = "25", !.H = "0"]
SetT(p, T) == [p EXCEPT !.T = T, !.H = At]
SetH(p, H) == [p EXCEPT !.H = H, !.T = Solve]
SetP(p, P) == [p EXCEPT !.P = P]
=============================================================================
