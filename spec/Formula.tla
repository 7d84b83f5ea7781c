------------------------------ MODULE Formula ------------------------------
(***************************************************************************)
(* Chemical formulas.                                                      *)
(*                                                                         *)
(*   compound = group [ "." [number] group ] [ "[" phase "]" ]             *)
(*   group    = ( "(" group ")" [number]  |  element [number] )+           *)
(*                                                                         *)
(* The meaning of a formula is its composition: how many atoms of each     *)
(* element it holds.  Numbers are decimal numerals (Big).                  *)
(***************************************************************************)
EXTENDS Elements, Integers, Sequences, FiniteSets, TLC, Big

Range1(s) == {s[i] : i \in 1..Len(s)}
Uppers == Range1(SChars("ABCDEFGHIJKLMNOPQRSTUVWXYZ"))
Lowers == Range1(SChars("abcdefghijklmnopqrstuvwxyz"))
Digits == Range1(SChars("0123456789"))

(* ---- compositions ------------------------------------------------------ *)
None == <<>>
At0(c, e) == IF e \in DOMAIN c THEN c[e] ELSE "0"
Times(c, k) == [e \in DOMAIN c |-> DMul(c[e], k)]
Plus(c, d) == [e \in DOMAIN c \cup DOMAIN d |-> DAdd(At0(c, e), At0(d, e))]
Atom(e) == e :> "1"
SameComp(c, d) == \A e \in DOMAIN c \cup DOMAIN d : DEq(At0(c, e), At0(d, e))

RECURSIVE SumSet(_, _)
SumSet(F, S) == IF S = {} THEN "0" ELSE LET x == CHOOSE y \in S : TRUE IN DAdd(F[x], SumSet(F, S \ {x}))
MassOf(c) == SumSet([e \in DOMAIN c |-> DMul(c[e], AtomicMass[e])], DOMAIN c)

(* ---- parsing ----------------------------------------------------------- *)
Ch(s, p) == IF p \in 1..Len(s) THEN s[p] ELSE ""
RECURSIVE Skip(_, _, _)
Skip(s, p, C) == IF Ch(s, p) \in C THEN Skip(s, p + 1, C) ELSE p
RECURSIVE Text(_, _, _)
Text(s, p, q) == IF p >= q THEN "" ELSE SCat(s[p], Text(s, p + 1, q))
(* the number at p, the given default if there is none *)
Number(s, p) == LET q == Skip(s, p, Digits) IN [p |-> q, n |-> IF q = p THEN "1" ELSE DNorm(Text(s, p, q))]

Bad == [ok |-> FALSE, p |-> 0, c |-> None]
RECURSIVE Items(_, _, _, _)
Items(s, p, c, n) ==
  LET done == IF n = 0 THEN Bad ELSE [ok |-> TRUE, p |-> p, c |-> c] IN
  IF Ch(s, p) = "("
  THEN LET g == Items(s, p + 1, None, 0) IN
       IF ~g.ok \/ Ch(s, g.p) # ")" THEN Bad
       ELSE LET k == Number(s, g.p + 1) IN Items(s, k.p, Plus(c, Times(g.c, k.n)), n + 1)
  ELSE IF Ch(s, p) \in Uppers
  THEN LET q == Skip(s, p + 1, Lowers)
           e == Text(s, p, q)
           k == Number(s, q)
       IN IF e \notin Elements THEN Bad ELSE Items(s, k.p, Plus(c, Times(Atom(e), k.n)), n + 1)
  ELSE done

Phase(s, p) == \* end of an optional phase, 0 if malformed
  IF Ch(s, p) # "[" THEN p
  ELSE LET q == Skip(s, p + 1, Uppers \cup Lowers \cup Digits) IN
       IF q = p + 1 \/ Ch(s, q) # "]" THEN 0 ELSE q + 1

ParseChars(s) ==
  LET g == Items(s, 1, None, 0)
      dotted == g.ok /\ Ch(s, g.p) = "."
      k == IF dotted THEN Number(s, g.p + 1) ELSE [p |-> 0, n |-> "1"]
      h == IF dotted THEN Items(s, k.p, None, 0) ELSE g
      c == IF ~dotted THEN g.c ELSE IF h.ok THEN Plus(g.c, Times(h.c, k.n)) ELSE None
  IN IF ~g.ok \/ ~h.ok THEN Bad
     ELSE IF Phase(s, h.p) # Len(s) + 1 THEN Bad ELSE [ok |-> TRUE, p |-> Len(s) + 1, c |-> c]
(* blanks around a formula are not significant *)
Parse(text) == ParseChars(SChars(STrim(text)))

WellFormed(text) == Parse(text).ok
Composition(text) == Parse(text).c
MolarMass(text) == MassOf(Composition(text))

(* ---- laws of composition ----------------------------------------------- *)
(* mass fraction of an element in a composition *)
MassFraction(c, e) == IF DIsZero(At0(c, e)) THEN "0" ELSE DDiv(DMul(At0(c, e), AtomicMass[e]), MassOf(c))
Amount(c, m) == DDiv(m, MassOf(c))
Mass(c, n) == DMul(n, MassOf(c))
(* the mass of target that holds as much of e as mass m of source *)
Convert(m, src, tgt, e) ==
  LET t == MassFraction(tgt, e) IN IF DIsZero(t) THEN "0" ELSE DDiv(DMul(m, MassFraction(src, e)), t)
=============================================================================
