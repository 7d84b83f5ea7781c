----------------------------- MODULE Transport -----------------------------
(***************************************************************************)
(* Transport phenomena: dimensionless quantities, natural convection along *)
(* an isothermal flat surface, friction and pressure drop in ducts, and    *)
(* the physical constants they use.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Big

Pi == "3.14159265358979323846264338327950288419716939937510582"
Gravity == "9.80665"
Sq(a) == DMul(a, a)
Cube(a) == DMul(a, DMul(a, a))
Pow(a, b) == IF DIsZero(a) THEN "0" ELSE DPow(a, b)
Third == DDiv("1", "3")

(* cosine of an angle in degrees, |angle| <= 90, by its Taylor series       *)
RECURSIVE CosTerms(_, _, _)
CosTerms(x2, term, n) == \* term is the n-th term; 24 of them are plenty
  IF n = 24 THEN "0"
  ELSE DAdd(term, CosTerms(x2, DNeg(DDiv(DMul(term, x2), DMul(2 * n + 1, 2 * n + 2))), n + 1))
Cos(deg) == LET x == DDiv(DMul(deg, Pi), "180") IN CosTerms(Sq(x), "1", 0)

(* ---- dimensionless quantities ------------------------------------------ *)
Gr(L, Ts, Tf, beta, nu, g) == DDiv(DMul(DMul(DMul(g, beta), DSub(Ts, Tf)), Cube(L)), Sq(nu))
Pr(nu, alpha) == DDiv(nu, alpha)
Re(L, v, nu) == DDiv(DMul(v, L), nu)
Ra(L, Ts, Tf, alpha, beta, nu) == DMul(Gr(L, Ts, Tf, beta, nu, Gravity), Pr(nu, alpha))
Nu(L, h, k) == DDiv(DMul(h, L), k)
Sh(L, h, D) == DDiv(DMul(h, L), D)
(* the arguments of a function, in the order in which it takes them         *)
Number(f, a) ==
  CASE f = "Gr" -> Gr(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "Pr" -> Pr(a[1], a[2])
    [] f = "Re" -> Re(a[1], a[2], a[3])
    [] f = "Ra" -> Ra(a[1], a[2], a[3], a[4], a[5], a[6])
    [] f = "Nu" -> Nu(a[1], a[2], a[3])
    [] f = "Sh" -> Sh(a[1], a[2], a[3])
(* what a difference of temperatures can lose to cancellation               *)
NumberSize(f, a) == IF f \in {"Gr", "Ra"}
  THEN DAbs(Number(f, [a EXCEPT ![3] = DNeg(DAdd(DAbs(a[2]), DSub(DAbs(a[3]), a[2])))])) ELSE "0"

(* ---- regions of an (angle, Rayleigh number) map ------------------------- *)
Above(x, lo, incl) == lo = "" \/ (IF incl THEN DLe(lo, x) ELSE DLt(lo, x))
Below(x, hi, incl) == hi = "" \/ (IF incl THEN DLe(x, hi) ELSE DLt(x, hi))
In(r, theta, ra) ==
  /\ Above(theta, r.tlo, r.tloi) /\ Below(theta, r.thi, r.thii)
  /\ Above(ra, r.rlo, r.rloi) /\ Below(ra, r.rhi, r.rhii)

(* The map of the surface: the angle from the vertical and log10(Ra) decide *)
(* which correlation applies.                                               *)
Rg(c, tlo, tloi, thi, thii, rlo, rloi, rhi, rhii) ==
  [c |-> c, tlo |-> tlo, tloi |-> tloi, thi |-> thi, thii |-> thii, rlo |-> rlo, rloi |-> rloi, rhi |-> rhi, rhii |-> rhii]
Map ==
  {Rg("922", "-90", TRUE, "-52", TRUE, "", TRUE, "7", TRUE),
   Rg("923", "-90", TRUE, "-52", TRUE, "7", FALSE, "", TRUE),
   Rg("827", "-52", FALSE, "0", FALSE, "", TRUE, "", TRUE),
   Rg("826", "0", TRUE, "0", TRUE, "", TRUE, "", TRUE),
   Rg("827", "0", FALSE, "88", FALSE, "", TRUE, "", TRUE),
   Rg("838", "88", TRUE, "90", TRUE, "", TRUE, "", TRUE)}
CorrelationsAt(theta, lr) == {r.c : r \in {q \in Map : In(q, theta, lr)}}
(* Rounding decides on which side of a limit of Ra a point falls, and the   *)
(* map leaves open which correlation applies to a vertical surface exactly  *)
(* at log10(Ra) = 11.                                                       *)
Rounding == "1e-9"
Correlations(theta, lr) ==
  IF lr = "-inf" THEN CorrelationsAt(theta, "-1e9")
  ELSE CorrelationsAt(theta, lr) \cup CorrelationsAt(theta, DAdd(lr, Rounding)) \cup CorrelationsAt(theta, DSub(lr, Rounding))
       \cup (IF DIsZero(theta) /\ DClose(lr, "11", Rounding, "0") THEN {"827"} ELSE {})
Correlation(c, ra, pr) ==
  CASE c = "922" -> DMul("0.59", Pow(ra, "0.25"))
    [] c = "923" -> DMul("0.1", Pow(ra, Third))
    [] c = "826" -> DMul(DMul("0.678", Pow(ra, "0.25")), Pow(DDiv(pr, DAdd("0.952", pr)), "0.25"))
    [] c = "827" -> DAdd("0.68", DDiv(DMul("0.67", Pow(ra, "0.25")),
                         Pow(DAdd("1", Pow(DDiv("0.492", pr), "0.5625")), DDiv("4", "9"))))
    [] c = "838" -> DMul("0.58", Pow(ra, "0.2"))

(* ---- an isothermal flat surface ----------------------------------------- *)
(* temperature at which the properties of the fluid are evaluated           *)
FilmT(gas, Ts, Tf) == DSub(Ts, DMul(IF gas THEN "0.38" ELSE "0.5", DSub(Ts, Tf)))
BetaT(gas, Ts, Tf) == IF gas THEN Tf ELSE FilmT(gas, Ts, Tf)
Pull(theta, Ts, Tf) ==
  IF \/ DLt(Tf, Ts) /\ DLt("0", theta) /\ DLt(theta, "45")
     \/ ~DLt(Tf, Ts) /\ DLt("-45", theta) /\ DLt(theta, "0")
  THEN DMul(Gravity, Cos(theta)) ELSE Gravity
(* p: the properties of the fluid at those temperatures                     *)
PlateRa(q, p) == DAbs(DMul(Gr(q.L, q.Ts, q.Tf, p.beta, p.nu, Pull(q.theta, q.Ts, q.Tf)), Pr(p.nu, p.alpha)))
LogRa(ra) == IF DIsZero(ra) THEN "-inf" ELSE DLog10(ra)
PlateNu(q, p) == LET ra == PlateRa(q, p) IN {Correlation(c, ra, Pr(p.nu, p.alpha)) : c \in Correlations(q.theta, LogRa(ra))}
OfNu(f, n, L, k) ==
  CASE f = "Nu_x" -> n
    [] f = "Nu_L" -> DDiv(n, "0.75")
    [] f = "h_x" -> DDiv(DMul(n, k), L)
    [] f = "h_L" -> DDiv(DMul(DDiv(n, "0.75"), k), L)
Plate(f, q, p) == {OfNu(f, n, q.L, p.k) : n \in PlateNu(q, p)}
ThetaOk(theta) == DLe("-90", theta) /\ DLe(theta, "90")

(* ---- ducts --------------------------------------------------------------- *)
Rough(e, D) == DDiv(DDiv(e, D), "3.7")
FLaminar(re) == DDiv("64", re)
FSmooth(re) == DDiv("1", Sq(DSub(DMul("1.82", DLog10(re)), "1.64")))
FHaaland(re, e, D) == DDiv("1", Sq(DMul("1.8", DLog10(DAdd(DDiv("6.9", re), Pow(Rough(e, D), "1.11"))))))
(* Colebrook: 1/sqrt(f) = -2 log10(e/D/3.7 + 2.51/(Re sqrt(f))); the right  *)
(* side decreases in 1/sqrt(f), so that there is one solution at most       *)
ColebrookRhs(x, re, e, D) == DMul("-2", DLog10(DAdd(Rough(e, D), DMul(DDiv("2.51", re), x))))
ColebrookOk(f, re, e, D, tol) ==
  DIsNum(f) /\ DLt("0", f) /\
  LET x == DDiv("1", DSqrt(f)) IN DClose(x, ColebrookRhs(x, re, e, D), tol, "0")
RECURSIVE Iterate(_, _, _, _, _)
Iterate(x, re, e, D, n) == IF n = 0 THEN x ELSE Iterate(ColebrookRhs(x, re, e, D), re, e, D, n - 1)
FColebrook(re, e, D) == DDiv("1", Sq(Iterate("7", re, e, D, 40)))
Unusual(re, e, D) == \/ DLt(DDiv(e, D), "0") \/ DLt("0.05", DDiv(e, D)) \/ DLt(re, "4000") \/ DLt("1e8", re)
HydraulicD(A, P) == DDiv(DMul("4", A), P)
Drop(f, L, D, rho, v) == DMul(DMul(f, DDiv(L, D)), DDiv(DMul(rho, Sq(v)), "2"))

(* ---- constants: what each has to agree with ------------------------------ *)
(* c, h, k_B and N_A are exact by definition of the SI (2019), as are the   *)
(* standard acceleration and the charge of the electron                     *)
E0 == "1.602176634e-19"
DAgree(a, b, tol) == DClose(a, b, tol, "0")
ConstantOk(n, v, k(_)) ==
  CASE n = "c" -> DEq(v, "299792458")
    [] n = "h" -> DEq(v, "6.62607015e-34")
    [] n = "k_B" -> DEq(v, "1.380649e-23")
    [] n = "N_A" -> DEq(v, "6.02214076e23")
    [] n = "g" -> DEq(v, Gravity)
    [] n = "h_bar" -> DAgree(v, DDiv(k("h"), DMul("2", Pi)), "1e-9")
    [] n = "R" -> DAgree(v, DMul(k("N_A"), k("k_B")), "1e-9")
    [] n = "F" -> DAgree(v, DMul(k("N_A"), E0), "1e-9")
    [] n = "sigma" -> DAgree(v, DDiv(DMul(DMul("2", DPow(Pi, "5")), DPow(k("k_B"), "4")),
                                     DMul("15", DMul(Cube(k("h")), Sq(k("c"))))), "1e-9")
    [] n = "G" -> DAgree(v, "6.6743e-11", "1e-4")
    [] n = "m_u" -> DAgree(DMul(v, k("N_A")), "0.001", "1e-6")
    [] n = "T_NTP" -> DEq(v, "293.15")
    [] n = "P_NTP" -> DEq(v, "101325")
    [] n = "T_STP" -> DEq(v, "273.15")
    [] n = "P_STP" -> DEq(v, "100000")
Constants == {"c", "h", "k_B", "N_A", "g", "h_bar", "R", "F", "sigma", "G", "m_u", "T_NTP", "P_NTP", "T_STP", "P_STP"}
=============================================================================
