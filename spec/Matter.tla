------------------------------- MODULE Matter -------------------------------
(***************************************************************************)
(* Models of material properties (auxi.tools.materialphysicalproperties).   *)
(*                                                                         *)
(* A model is a function of the state it is given: it remembers nothing,   *)
(* changes nothing, and refuses states outside its schema.                 *)
(* A state is a sequence of fields [k |-> name, t |-> type, v |-> numeral,  *)
(* d |-> composition], a composition a sequence of [c |-> compound,        *)
(* v |-> numeral].                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Big
F == INSTANCE Formula

GasR == "8.314462618"

(* ---- states and schemas ------------------------------------------------ *)
Num(k, lo, hi) == [k |-> k, t |-> "num", lo |-> lo, hi |-> hi]
Dict(k) == [k |-> k, t |-> "dict", lo |-> "", hi |-> ""]
TF == Num("T", "0", "")
Schema(m) ==
  CASE m.kind \in {"BetaT", "RhoT"} -> <<TF>>
    [] m.kind = "RhoTP" -> <<TF, Num("P", "0", "")>>
    [] m.kind = "RhoTPx" -> <<TF, Num("P", "0", ""), Dict("x")>>
    [] m.kind \in {"Wilke", "Herning", "IdealCp", "UrbainX", "RiboudX"} -> <<TF, Dict("x")>>
    [] m.kind \in {"UrbainY", "RiboudY"} -> <<TF, Dict("y")>>
    [] m.kind \in {"DafCp", "DafH"} -> <<TF, Num("y_C", "0", "1"), Num("y_H", "0", "1"), Num("y_O", "0", "1"), Num("y_N", "0", "1"), Num("y_S", "0", "1")>>
    [] m.kind = "Poly" -> <<Num("T", m.lo, m.hi)>>
Keys(st) == {st[i].k : i \in 1..Len(st)}
Get(st, k) == st[CHOOSE i \in 1..Len(st) : st[i].k = k]
FieldOk(f, x) ==
  /\ x.t = f.t
  /\ (f.t = "num" => (f.lo = "" \/ DLe(f.lo, x.v)) /\ (f.hi = "" \/ DLe(x.v, f.hi)))
Accepts(m, st) ==
  LET sc == Schema(m) IN
  /\ Keys(st) = {sc[i].k : i \in 1..Len(sc)}
  /\ \A i \in 1..Len(sc) : FieldOk(sc[i], Get(st, sc[i].k))

(* ---- compositions ------------------------------------------------------ *)
MapD(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
SumOf(Op(_), s) == DSum(MapD(Op, s))
Of(x, c) == DSum([i \in 1..Len(x) |-> IF x[i].c = c THEN x[i].v ELSE "0"])
AnyOf(x, cs) == DSum([i \in 1..Len(cs) |-> Of(x, cs[i])])
Total(x) == SumOf(LAMBDA a : a.v, x)
Normal(x) == LET t == Total(x) IN MapD(LAMBDA a : [a EXCEPT !.v = DDiv(@, t)], x)
Only(x, S) == SelectSeq(x, LAMBDA a : a.c \in S)
Mm(c) == IF c = "Air" THEN "28.9645" ELSE F!MolarMass(c)
ToAmounts(y) == Normal(MapD(LAMBDA a : [a EXCEPT !.v = DDiv(@, Mm(a.c))], y))
Sq(a) == DMul(a, a)

(* ---- ideal gas --------------------------------------------------------- *)
Rho(mm, P, T) == DDiv(DDiv(DMul(DDiv(mm, "1000"), P), GasR), T)
MeanMass(x) == SumOf(LAMBDA a : DMul(a.v, Mm(a.c)), x)

(* ---- gas mixtures: pure holds [c, mu, Cp] for the gases there is data of *)
Gases == {"Air", "Ar", "NH3", "CO2", "CO", "N2", "O2", "H2O"}
PureOf(pure, c) == pure[CHOOSE i \in 1..Len(pure) : pure[i].c = c]
Phi(Mi, Mj, mi, mj) ==
  DDiv(DDiv(Sq(DAdd("1", DMul(DSqrt(DDiv(mi, mj)), DSqrt(DSqrt(DDiv(Mj, Mi)))))),
            DDiv("4", DSqrt("2"))),
       DSqrt(DAdd("1", DDiv(Mi, Mj))))
Wilke(x, pure) ==
  LET n == Len(x)
      mu == [i \in 1..n |-> PureOf(pure, x[i].c).mu]
      M == [i \in 1..n |-> Mm(x[i].c)]
  IN DSum([i \in 1..n |->
       DDiv(DMul(x[i].v, mu[i]),
            DAdd(x[i].v, DSum([j \in 1..n |-> IF j = i THEN "0" ELSE DMul(x[j].v, Phi(M[i], M[j], mu[i], mu[j]))])))])
Herning(x, pure) == DDiv(SumOf(LAMBDA a : DMul(DMul(PureOf(pure, a.c).mu, a.v), DSqrt(Mm(a.c))), x),
                         SumOf(LAMBDA a : DMul(a.v, DSqrt(Mm(a.c))), x))
IdealCp(x, pure) == DDiv(SumOf(LAMBDA a : DMul(DMul(PureOf(pure, a.c).Cp, a.v), Mm(a.c)), x),
                         SumOf(LAMBDA a : DMul(a.v, Mm(a.c)), x))

(* ---- slags ------------------------------------------------------------- *)
Poly2(a, b, c, z) == DAdd(DAdd(a, DMul(b, z)), DMul(c, Sq(z)))
Urbain(x0, T) ==
  LET x == Normal(x0)
      xg == AnyOf(x, <<"SiO2", "P2O5">>)
      xm == DSum(<<AnyOf(x, <<"CaO", "MgO", "Na2O", "K2O", "FeO", "MnO">>), DMul("3", Of(x, "CaF2")), DMul("2", AnyOf(x, <<"TiO2", "ZrO2">>))>>)
      xa == AnyOf(x, <<"Al2O3", "Fe2O3", "B2O3">>)
      norm == DAdd("1", AnyOf(x, <<"CaF2", "Fe2O3", "TiO2", "ZrO2">>))
      g == DDiv(xg, norm)
      al == DDiv(xm, DAdd(xm, xa))
      B == DSum(<<Poly2("13.8", "39.9355", "-44.049", al),
                  DMul(Poly2("30.481", "-117.1505", "129.9978", al), g),
                  DMul(Poly2("-40.9429", "234.0846", "-300.04", al), Sq(g)),
                  DMul(Poly2("60.7619", "-153.9276", "211.1616", al), DMul(g, Sq(g)))>>)
  IN IF DIsZero(DAdd(xm, xa)) THEN "NaN"
     ELSE DDiv(DMul(DMul(DExp(DSub(DMul("-0.2693", B), "11.6725")), T), DExp(DDiv(DMul("1000", B), T))), "10")
Doubled == <<"P2O5", "Fe2O3", "B2O3">>
Single == <<"PO2.5", "FeO1.5", "BO1.5">>
Acids == <<"SiO2", "PO2.5", "TiO2", "ZrO2">>
Bases == <<"CaO", "MgO", "FeO1.5", "FeO", "MnO", "BO1.5">>
Rest == <<"Al2O3", "CaF2", "Na2O", "K2O">>
Riboud(x0, T) ==
  LET v(c) == DAdd(Of(x0, c), DSum([i \in 1..3 |-> IF Single[i] = c THEN DMul("2", Of(x0, Doubled[i])) ELSE "0"]))
      all(cs) == DSum([i \in 1..Len(cs) |-> v(cs[i])])
      t == DSum(<<all(Acids), all(Bases), all(Rest)>>)
      f(cs) == DDiv(all(cs), t)
      x2 == f(Bases)  x3 == f(<<"Al2O3">>)  x4 == f(<<"CaF2">>)  x5 == f(<<"Na2O", "K2O">>)
      A == DExp(DSum(<<"-17.51", DMul("1.73", x2), DMul("5.82", x4), DMul("7.02", x5), DMul("-33.76", x3)>>))
      B == DSum(<<"31140", DMul("-23896", x2), DMul("-46356", x4), DMul("-39159", x5), DMul("68833", x3)>>)
  IN IF DIsZero(t) THEN "NaN" ELSE DDiv(DMul(DMul(A, T), DExp(DDiv(B, T))), "10")

(* ---- dry ash free coal (Merrick 1983) ---------------------------------- *)
Daf == <<"C", "H", "O", "N", "S">>
Amounts(y) == DMul("1000", DSum([k \in 1..5 |-> DDiv(y[k], F!MassOf(F!Atom(Daf[k])))]))
G0(z) == DDiv("1", DSub(DExp(z), "1"))
G1(z) == DDiv(DMul(DExp(z), Sq(z)), Sq(DSub(DExp(z), "1")))
DafCp(y, T) == DMul(DMul(GasR, Amounts(y)), DAdd(G1(DDiv("380", T)), DMul("2", G1(DDiv("1800", T)))))
DafH(y, T) == DMul(DMul(GasR, Amounts(y)), DAdd(DMul("380", G0(DDiv("380", T))), DMul("3600", G0(DDiv("1800", T)))))

(* ---- polynomials, coefficients from the highest power down ------------- *)
RECURSIVE Horner(_, _, _, _)
Horner(c, T, i, acc) == IF i > Len(c) THEN acc ELSE Horner(c, T, i + 1, DAdd(DMul(acc, T), c[i]))
Polynomial(c, T) == Horner(c, T, 1, "0")
PolySize(c, T) == Polynomial(MapD(DAbs, c), DAbs(T))

(* ---- the value of a model in a state it accepts ------------------------ *)
Gasy(m) == m.kind \in {"Wilke", "Herning", "IdealCp"}
Known(x) == Only(x, Gases)
Value(m, st, pure) ==
  LET T == Get(st, "T").v
      x == Get(st, "x").d
      y == Get(st, "y").d
      ys == [k \in 1..5 |-> Get(st, SCat("y_", Daf[k])).v]
  IN CASE m.kind = "BetaT" -> DDiv("1", T)
       [] m.kind = "RhoT" -> Rho(m.mm, m.P, T)
       [] m.kind = "RhoTP" -> Rho(m.mm, Get(st, "P").v, T)
       [] m.kind = "RhoTPx" -> Rho(MeanMass(x), Get(st, "P").v, T)
       [] m.kind = "Wilke" -> Wilke(Normal(Known(x)), pure)
       [] m.kind = "Herning" -> Herning(Normal(Known(x)), pure)
       [] m.kind = "IdealCp" -> IdealCp(Normal(Known(x)), pure)
       [] m.kind = "UrbainX" -> Urbain(x, T)
       [] m.kind = "UrbainY" -> Urbain(ToAmounts(y), T)
       [] m.kind = "RiboudX" -> Riboud(x, T)
       [] m.kind = "RiboudY" -> Riboud(ToAmounts(y), T)
       [] m.kind = "DafCp" -> DafCp(ys, T)
       [] m.kind = "DafH" -> DafH(ys, T)
       [] m.kind = "Poly" -> Polynomial(m.c, T)
(* how large the numbers are that a value is made of *)
Size(m, st) == IF m.kind = "Poly" THEN PolySize(m.c, Get(st, "T").v) ELSE "0"
=============================================================================
