----------------------------- MODULE MC_Matter ------------------------------
(***************************************************************************)
(* Sessions of calls on the models, and the laws their values obey.        *)
(***************************************************************************)
EXTENDS Matter, Json
CONSTANTS Depth, Fine

Ts == IF Fine THEN {"300", "452.5", "590"} ELSE {"300", "590"}
Tslag == IF Fine THEN {"1500", "1723.15", "2100"} ELSE {"1500", "1973.15"}
Ix(vs, cs) == [i \in 1..Len(cs) |-> [c |-> cs[i], v |-> vs[i]]]
GasXs == {Ix(<<"1">>, <<"N2">>), Ix(<<"0.6", "0.3", "0.3">>, <<"CO", "N2", "CO2">>), Ix(<<"0", "0.5", "0.2">>, <<"O2", "Air", "XeF6">>)}
         \cup (IF Fine THEN {Ix(<<"3", "1", "0.01">>, <<"Ar", "CO", "CO2">>), Ix(<<"0.5", "0.5">>, <<"Air", "O2">>)} ELSE {})
Mixed == {Ix(<<"1">>, <<"H2">>), Ix(<<"0.6", "0.4">>, <<"CO", "CO2">>)}
SlagXs == {Ix(<<"0.4", "0.4", "0.2">>, <<"SiO2", "CaO", "Al2O3">>), Ix(<<"0.3", "0.3", "0.1", "0.1">>, <<"SiO2", "FeO", "P2O5", "CaF2">>),
           Ix(<<"30", "20", "5", "5", "1">>, <<"CaO", "SiO2", "Fe2O3", "Na2O", "Cr2O3">>)}
          \cup (IF Fine THEN {Ix(<<"0.5", "0.2", "0.1", "0.1">>, <<"SiO2", "TiO2", "B2O3", "K2O">>)} ELSE {})
Coals == {<<"0.8", "0.05", "0.1", "0.02", "0.03">>, <<"1", "0", "0", "0", "0">>}
PolyM == [kind |-> "Poly", c |-> <<"1e-6", "-0.002", "3.5">>, lo |-> "250", hi |-> "590"]
Kinds == {"BetaT", "RhoT", "RhoTP", "RhoTPx", "Wilke", "Herning", "IdealCp", "UrbainX", "UrbainY", "RiboudX", "RiboudY", "DafCp", "DafH", "Poly"}
Model(k) == IF k = "Poly" THEN PolyM ELSE [kind |-> k, mm |-> "28.0134", P |-> "101325"]

N(k, v) == [k |-> k, t |-> "num", v |-> v, d |-> <<>>]
D(k, d) == [k |-> k, t |-> "dict", v |-> "0", d |-> d]
States(k) ==
  CASE k \in {"BetaT", "RhoT", "Poly"} -> {<<N("T", t)>> : t \in Ts}
    [] k = "RhoTP" -> {<<N("T", t), N("P", p)>> : t \in Ts, p \in {"1e5", "0"}}
    [] k = "RhoTPx" -> {<<N("T", t), N("P", "2e5"), D("x", x)>> : t \in Ts, x \in Mixed}
    [] k \in {"Wilke", "Herning", "IdealCp"} -> {<<N("T", t), D("x", x)>> : t \in Ts, x \in GasXs}
    [] k \in {"UrbainX", "RiboudX"} -> {<<N("T", t), D("x", x)>> : t \in Tslag, x \in SlagXs}
    [] k \in {"UrbainY", "RiboudY"} -> {<<N("T", t), D("y", x)>> : t \in Tslag, x \in SlagXs}
    [] k \in {"DafCp", "DafH"} -> {<<N("T", t)>> \o [i \in 1..5 |-> N(SCat("y_", Daf[i]), y[i])] : t \in Ts, y \in Coals}

(* ways to spoil a state *)
Spoil == {"missing", "extra", "text", "none", "low", "high", "number"}
Spoilt(st, w) ==
  CASE w = "missing" -> SubSeq(st, 1, Len(st) - 1)
    [] w = "extra" -> Append(st, N("z", "1"))
    [] w = "text" -> [st EXCEPT ![1].t = "text"]
    [] w = "none" -> [st EXCEPT ![1].t = "none"]
    [] w = "low" -> [st EXCEPT ![1].v = "-1"]
    [] w = "high" -> [st EXCEPT ![Len(st)].v = "1e9"]
    [] w = "number" -> [st EXCEPT ![Len(st)] = N(st[Len(st)].k, "0.5")]

(* made up properties of the pure gases *)
Pure == LET cs == <<"N2", "CO", "CO2", "O2", "Air", "Ar">> IN
  [i \in 1..6 |-> [c |-> cs[i], mu |-> DMul("1e-5", i), Cp |-> DMul("100", i)]]

(* m: the model, whose molar mass and pressure can be changed               *)
VARIABLES k, m, hist
vars == <<k, m, hist>>
Init == k \in Kinds /\ m = Model(k) /\ hist = <<>>
Call(st, w) == hist' = Append(hist, [kind |-> k, state |-> st, spoilt |-> w, set |-> "", v |-> ""]) /\ UNCHANGED <<k, m>>
Change(f, v) == hist' = Append(hist, [kind |-> k, state |-> <<>>, spoilt |-> "", set |-> f, v |-> v]) /\ m' = [m EXCEPT ![f] = v] /\ UNCHANGED k
First(S) == CHOOSE x \in S : TRUE
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E st \in States(k) : Call(st, "")
     \/ \E w \in Spoil : Call(Spoilt(First(States(k)), w), w)
     \/ k \in {"RhoT", "RhoTP"} /\ Change("mm", "44.01")
     \/ k = "RhoT" /\ Change("P", "2e5")
Spec == Init /\ [][Next]_vars
Emit == PrintT(<<"@@", ToJson(hist')>>)

Last == hist[Len(hist)]
V(st) == Value(m, st, Pure)
Eq(a, b) == DClose(a, b, "1e-25", "0")
With(st, key, f(_)) == [i \in 1..Len(st) |-> IF st[i].k = key THEN f(st[i]) ELSE st[i]]

(* what is spoilt is refused, everything else is accepted *)
Refusals == (hist # <<>> /\ Last.set = "") =>
  LET sp == Last.spoilt  st == Last.state
      harmless == (sp = "high" /\ k \in {"BetaT", "RhoT", "RhoTP", "RhoTPx", "Wilke", "Herning", "IdealCp", "UrbainX", "UrbainY", "RiboudX", "RiboudY"})
                  \/ (sp = "number" /\ k \in {"BetaT", "RhoT", "RhoTP", "DafCp", "DafH"})
  IN Accepts(m, st) <=> (sp = "" \/ harmless)

Good == hist # <<>> /\ Last.set = "" /\ Last.spoilt = ""
Positive == Good => DIsNum(V(Last.state)) /\ DLe("0", V(Last.state))
(* only the ratios of a composition matter to mixtures and slags *)
Ratios == (Good /\ k \in {"Wilke", "Herning", "IdealCp", "UrbainX", "UrbainY", "RiboudX", "RiboudY"}) =>
  LET key == IF k \in {"UrbainY", "RiboudY"} THEN "y" ELSE "x"
      more(f) == [f EXCEPT !.d = MapD(LAMBDA a : [a EXCEPT !.v = DMul("7", @)], @)]
  IN Eq(V(Last.state), V(With(Last.state, key, more)))
(* a mixture lies between its components, a pure gas is itself *)
Between == (Good /\ Gasy(m)) =>
  LET x == Known(Get(Last.state, "x").d)
      ps == SelectSeq(x, LAMBDA a : DLt("0", a.v))
      P(c) == IF k = "IdealCp" THEN PureOf(Pure, c).Cp ELSE PureOf(Pure, c).mu
      v == V(Last.state)
  IN /\ (Len(ps) = 1 => Eq(v, P(ps[1].c)))
     /\ (k # "Wilke" => \E i, j \in 1..Len(ps) : DLe(P(ps[i].c), DMul(v, "1.0000001")) /\ DLe(v, DMul(P(ps[j].c), "1.0000001")))
(* the classes of a slag: two formulas of the same oxide count alike *)
Oxides == (Good /\ k = "RiboudX") =>
  LET sub(f) == [f EXCEPT !.d = MapD(LAMBDA a : IF a.c = "P2O5" THEN [c |-> "PO2.5", v |-> DMul("2", a.v)]
                                                ELSE IF a.c = "Fe2O3" THEN [c |-> "FeO1.5", v |-> DMul("2", a.v)] ELSE a, @)]
  IN Eq(V(Last.state), V(With(Last.state, "x", sub)))
(* slags get more fluid when they get hotter *)
Fluid == (Good /\ k \in {"UrbainX", "UrbainY", "RiboudX", "RiboudY"}) =>
  LET hot(f) == [f EXCEPT !.v = DAdd(@, "50")] IN DLt(V(With(Last.state, "T", hot)), V(Last.state))
(* the heat capacity of coal is the slope of its enthalpy *)
Slope == (Good /\ k = "DafCp") =>
  LET at(d) == LET f(x) == [x EXCEPT !.v = DAdd(@, d)] IN Value([kind |-> "DafH"], With(Last.state, "T", f), Pure)
  IN DClose(V(Last.state), DDiv(DSub(at("0.001"), at("-0.001")), "0.002"), "1e-9", "0")
(* the ideal gas *)
Gas == (Good /\ k = "RhoTPx") =>
  LET x == Get(Last.state, "x").d  T == Get(Last.state, "T").v  P == Get(Last.state, "P").v IN
  Eq(V(Last.state), DSum([i \in 1..Len(x) |-> Value([kind |-> "RhoTP", mm |-> Mm(x[i].c)], <<N("T", T), N("P", DMul(P, x[i].v))>>, Pure)]))
Powers == (Good /\ k = "Poly") =>
  LET T == Get(Last.state, "T").v IN Eq(V(Last.state), DAdd(DAdd(DMul("1e-6", Sq(T)), DMul("-0.002", T)), "3.5"))
=============================================================================
