------------------------------- MODULE Thermo -------------------------------
(***************************************************************************)
(* Thermochemistry of a phase.                                             *)
(*                                                                         *)
(* A phase is [dh, s, recs, mag]: the enthalpy and entropy at the bottom   *)
(* of its first heat capacity record, the records [lo, hi, c, e] - over    *)
(* lo..hi the heat capacity is SUM c[i]*T^e[i] - and, if it is magnetic,   *)
(* mag = <<Tc, beta0, p>> (Dinsdale 1991), else <<>>.                      *)
(*                                                                         *)
(* Everything follows from that: H and S are integrals of Cp and Cp/T,     *)
(* G = H - T*S, and beyond the last record Cp stays what it was there.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Big

One == "1"
Last(ph) == ph.recs[Len(ph.recs)]

CpTerms(r, T) == [i \in 1..Len(r.c) |-> DMul(r.c[i], DPow(T, r.e[i]))]
CpRec(r, T) == DSum(CpTerms(r, T))
(* the integral of c*T^e from a to b, as its two ends *)
Ends(c, e, a, b) ==
  IF DEq(e, "-1") THEN <<DMul(c, DLn(b)), DMul(c, DLn(a))>>
  ELSE LET k == DAdd(e, One) IN <<DDiv(DMul(c, DPow(b, k)), k), DDiv(DMul(c, DPow(a, k)), k)>>
HPiece(r, a, b) == DSum([i \in 1..Len(r.c) |-> LET x == Ends(r.c[i], r.e[i], a, b) IN DSub(x[1], x[2])])
SPiece(r, a, b) == DSum([i \in 1..Len(r.c) |-> LET x == Ends(r.c[i], DSub(r.e[i], One), a, b) IN DSub(x[1], x[2])])
(* how large the numbers are that a piece is the difference of *)
HSize(r, a, b) == DSum([i \in 1..Len(r.c) |-> LET x == Ends(r.c[i], r.e[i], a, b) IN DAdd(DAbs(x[1]), DAbs(x[2]))])
SSize(r, a, b) == DSum([i \in 1..Len(r.c) |-> LET x == Ends(r.c[i], DSub(r.e[i], One), a, b) IN DAdd(DAbs(x[1]), DAbs(x[2]))])

(* sum of F(record, from, to) over the records up to T *)
RECURSIVE Over(_, _, _, _)
Over(F(_, _, _), ph, T, i) ==
  LET r == ph.recs[i] IN
  IF DLe(T, r.hi) \/ i = Len(ph.recs) THEN F(r, r.lo, DMin(T, r.hi))
  ELSE DAdd(F(r, r.lo, r.hi), Over(F, ph, T, i + 1))
Beyond(ph, T) == DLt(Last(ph).hi, T)
RECURSIVE RecAt(_, _, _)
RecAt(ph, T, i) == IF i = Len(ph.recs) \/ DLt(T, ph.recs[i].hi) THEN i ELSE RecAt(ph, T, i + 1)
CpEnd(ph) == CpRec(Last(ph), Last(ph).hi)

(* ---- the lattice ------------------------------------------------------- *)
LCp(ph, T) == IF Beyond(ph, T) THEN CpEnd(ph) ELSE CpRec(ph.recs[RecAt(ph, T, 1)], T)
(* where two records meet both are right *)
LCpLeft(ph, T) == LET i == RecAt(ph, T, 1) IN
  IF i > 1 /\ DEq(T, ph.recs[i - 1].hi) THEN CpRec(ph.recs[i - 1], T) ELSE LCp(ph, T)
LH(ph, T) == DAdd(DAdd(ph.dh, Over(HPiece, ph, T, 1)),
                  IF Beyond(ph, T) THEN DMul(CpEnd(ph), DSub(T, Last(ph).hi)) ELSE "0")
LS(ph, T) == DAdd(DAdd(ph.s, Over(SPiece, ph, T, 1)),
                  IF Beyond(ph, T) THEN DMul(CpEnd(ph), DSub(DLn(T), DLn(Last(ph).hi))) ELSE "0")
HScale(ph, T) == DAdd(DAdd(DAbs(ph.dh), Over(HSize, ph, T, 1)), DAbs(LH(ph, T)))
SScale(ph, T) == DAdd(DAdd(DAbs(ph.s), Over(SSize, ph, T, 1)), DAbs(LS(ph, T)))

(* ---- magnetism (Dinsdale 1991) ---------------------------------------- *)
GasR == "8.314462618"
Magnetic(ph) == ph.mag # <<>>
Tau(ph, T) == DDiv(T, ph.mag[1])
IP(p) == DSub(DDiv(One, p), One)
AM(p) == DDiv("79", DMul("140", p))
BM(p) == DMul(DDiv("474", "497"), IP(p))
DM(p) == DAdd(DDiv("518", "1125"), DMul(DDiv("11692", "15975"), IP(p)))
LnB(ph) == DLn(DAdd(ph.mag[2], One))
(* x/a + y/b + z/c with powers k, 3k, 5k of tau *)
Series(t, k, a, b, c) == DAdd(DAdd(DDiv(DPow(t, k), a), DDiv(DPow(t, 3 * k), b)), DDiv(DPow(t, 5 * k), c))
MCp(ph, T) == IF ~Magnetic(ph) THEN "0" ELSE
  LET t == Tau(ph, T)  p == ph.mag[3]
      f == IF DLe(t, One) THEN DDiv(DMul(BM(p), DMul("2", Series(t, 3, "1", "3", "5"))), DM(p))
           ELSE DDiv(DMul("2", Series(t, -5, "1", "3", "5")), DM(p))
  IN DMul(DMul(GasR, LnB(ph)), f)
MH(ph, T) == IF ~Magnetic(ph) THEN "0" ELSE
  LET t == Tau(ph, T)  p == ph.mag[3]
      f == IF DLe(t, One) THEN DDiv(DSub(DMul(BM(p), Series(t, 3, "2", "15", "40")), DDiv(AM(p), t)), DM(p))
           ELSE DNeg(DDiv(Series(t, -5, "2", "21", "60"), DM(p)))
  IN DMul(DMul(DMul(GasR, T), LnB(ph)), f)
MG(ph, T) == IF ~Magnetic(ph) THEN "0" ELSE
  LET t == Tau(ph, T)  p == ph.mag[3]
      f == IF DLe(t, One) THEN DSub(One, DDiv(DAdd(DDiv(AM(p), t), DMul(BM(p), Series(t, 3, "6", "135", "600"))), DM(p)))
           ELSE DNeg(DDiv(Series(t, -5, "10", "315", "1500"), DM(p)))
  IN DMul(DMul(DMul(GasR, T), LnB(ph)), f)
MS(ph, T) == DDiv(DSub(MH(ph, T), MG(ph, T)), T)

(* ---- the properties of a phase ----------------------------------------- *)
Cp(ph, T) == DAdd(LCp(ph, T), MCp(ph, T))
CpLeft(ph, T) == DAdd(LCpLeft(ph, T), MCp(ph, T))
H(ph, T) == DAdd(LH(ph, T), MH(ph, T))
S(ph, T) == DAdd(LS(ph, T), MS(ph, T))
G(ph, T) == DSub(H(ph, T), DMul(T, S(ph, T)))

(* ---- engineering units: kWh for a mass in kg at a temperature in C ----- *)
Kelvin(t) == DAdd(t, "273.15")
PerMass(v, molarMass, m) == DDiv(DMul(v, m), DMul("3.6e6", DDiv(molarMass, "1000")))
=============================================================================
