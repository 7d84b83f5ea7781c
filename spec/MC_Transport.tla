---------------------------- MODULE MC_Transport ----------------------------
(***************************************************************************)
(* Sessions of questions to surfaces, regions, ducts and dimensionless     *)
(* quantities, and the laws their answers obey.                            *)
(***************************************************************************)
EXTENDS Transport, Json
CONSTANTS Depth, Fine

Thetas == {"-90", "-60", "-52", "-45", "-20", "0", "30", "45", "88", "89", "90"}
          \cup (IF Fine THEN {"-91", "-89.5", "-59.9", "-51.9", "-44.9", "-1e-6", "1e-6", "44.9", "45.1", "87.9", "88.1", "90.5"} ELSE {"-90.5"})
LogRas == IF Fine THEN {"2", "3.9", "4", "5", "6", "6.99", "7.01", "9", "10.99", "11", "11.01", "13"} ELSE {"3", "6.9", "7.1", "12"}
Sides == {"hot", "cold"}
Fns == {"Nu_x", "Nu_L", "h_x", "h_L"}
Kinds == {"plate", "region", "number", "duct"}

PlateQs == {[k |-> "plate", f |-> f, theta |-> t, lr |-> lr, side |-> s, gas |-> g] :
              f \in Fns, t \in Thetas, lr \in LogRas, s \in Sides, g \in BOOLEAN}
           \cup {[k |-> "plate", f |-> "Nu_x", theta |-> t, lr |-> "", side |-> "none", gas |-> TRUE] : t \in Thetas}
Pts == {"-1", "0", "1", "2", "3"}   \* limits are 0 and 2
RegionQs == {[k |-> "region", tlo |-> "0", thi |-> "2", rlo |-> rl, rhi |-> rh, tloi |-> a, thii |-> b, rloi |-> c, rhii |-> d, theta |-> t, ra |-> x] :
               rl \in {"", "0"}, rh \in {"", "2"}, a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, d \in BOOLEAN, t \in Pts, x \in Pts}
Ls == {"0.01", "3"}
NumberQs == {[k |-> "number", f |-> f, a |-> a] :
               f \in {"Gr", "Ra"}, a \in {<<L, Ts, Tf, "0.003", "1.5e-5", "2.1e-5">> : L \in Ls, Ts \in {"300", "350"}, Tf \in {"300", "400"}}}
            \cup {[k |-> "number", f |-> "Pr", a |-> <<x, y>>] : x \in {"1e-6", "2e-5"}, y \in {"1.4e-7", "3e-5"}}
            \cup {[k |-> "number", f |-> f, a |-> <<L, x, y>>] : f \in {"Re", "Nu", "Sh"}, L \in Ls, x \in {"0.2", "-7"}, y \in {"1e-6", "0.6"}}
Res == IF Fine THEN {"10", "2300", "3999", "4000", "2e4", "1e6", "1e8", "2e8"} ELSE {"100", "4000", "3e5", "2e8"}
Es == {"0", "1e-5", "0.004", "0.006"}
DuctQs == {[k |-> "duct", f |-> f, a |-> <<re, e, "0.1">>] : f \in {"f_l", "f_ts", "f_tr_Haaland", "f_tr_Colebrook"}, re \in Res, e \in Es}
          \cup {[k |-> "duct", f |-> "D_h", a |-> <<A, P>>] : A \in {"0.25", "3"}, P \in {"2", "7"}}
          \cup {[k |-> "duct", f |-> "drop", a |-> <<f, "10", D, rho, v>>] : f \in {"0.02", "0.64"}, D \in Ls, rho \in {"1.2", "1000"}, v \in {"0", "2"}}
Qs(k) == CASE k = "plate" -> PlateQs [] k = "region" -> RegionQs [] k = "number" -> NumberQs [] k = "duct" -> DuctQs

VARIABLES kind, hist
vars == <<kind, hist>>
Init == kind \in Kinds /\ hist = <<>>
Next == Len(hist) < Depth /\ (\E q \in Qs(kind) : hist' = Append(hist, q)) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
Emit == PrintT(<<"@@", ToJson(hist')>>)

Last == hist[Len(hist)]
Is(k) == hist # <<>> /\ Last.k = k
Eq(a, b) == DClose(a, b, "1e-25", "0")
Prs == {"0.01", "0.7", "7", "1000"}

(* every angle has a correlation, and away from the limits of Ra only one   *)
Covered == (Is("plate") /\ ThetaOk(Last.theta) /\ Last.lr # "") =>
  LET cs == Correlations(Last.theta, Last.lr) IN
  /\ cs # {} /\ (~(Last.theta = "0" /\ Last.lr = "11") => Cardinality(cs) = 1)
Beyond == (Is("plate") /\ ~ThetaOk(Last.theta)) => CorrelationsAt(Last.theta, "5") = {}
(* more convection with more buoyancy                                       *)
Rising == (Is("plate") /\ ThetaOk(Last.theta) /\ Last.lr # "") =>
  LET ra == DPow("10", Last.lr) IN
  \A c \in Correlations(Last.theta, Last.lr), pr \in Prs :
    /\ DLt("0", Correlation(c, ra, pr))
    /\ DLt(Correlation(c, ra, pr), Correlation(c, DMul("1.5", ra), pr))
(* mirroring the surface and exchanging hot and cold changes nothing about  *)
(* the pull                                                                 *)
Mirror == Is("plate") => /\ Pull(Last.theta, "400", "300") = Pull(DNeg(Last.theta), "300", "400")
                         /\ DLe(Pull(Last.theta, "400", "300"), Gravity)
                         /\ DLt("0", Pull(Last.theta, "400", "300"))
(* sin^2 + cos^2 = 1, and the angles one knows                              *)
Angles == Is("plate") => /\ Eq(Cos("60"), "0.5") /\ Eq(Cos("0"), "1") /\ Eq(Cos("-60"), "0.5")
                         /\ DClose(DAdd(Sq(Cos(Last.theta)), Sq(Cos(DSub("90", Last.theta)))), "1", "1e-25", "0")
(* local and average values are tied to each other                          *)
Ties == (Is("plate") /\ ThetaOk(Last.theta)) =>
  LET q == [L |-> "0.3", theta |-> Last.theta, Ts |-> "350", Tf |-> "300"]
      p == [beta |-> "0.003", nu |-> "1.6e-5", alpha |-> "2.3e-5", k |-> "0.026"]
      v(f) == CHOOSE x \in Plate(f, q, p) : TRUE
  IN /\ Eq(DMul(v("Nu_L"), "0.75"), v("Nu_x")) /\ Eq(Nu("0.3", v("h_x"), "0.026"), v("Nu_x"))
     /\ Eq(Nu("0.3", v("h_L"), "0.026"), v("Nu_L"))
(* a region with its limits excluded lies within the one with them included *)
Nested == Is("region") =>
  LET open == [Last EXCEPT !.tloi = FALSE, !.thii = FALSE, !.rloi = FALSE, !.rhii = FALSE]
      closed == [Last EXCEPT !.tloi = TRUE, !.thii = TRUE, !.rloi = TRUE, !.rhii = TRUE]
  IN /\ In(open, Last.theta, Last.ra) => In(Last, Last.theta, Last.ra)
     /\ In(Last, Last.theta, Last.ra) => In(closed, Last.theta, Last.ra)
(* numbers: Ra = Gr Pr, signs and scaling                                   *)
Scaled == (Is("number") /\ Last.f \in {"Gr", "Ra"}) =>
  LET a == Last.a IN
  /\ Eq(Number(Last.f, [a EXCEPT ![1] = DMul("2", @)]), DMul("8", Number(Last.f, a)))
  /\ Eq(Number(Last.f, [a EXCEPT ![2] = a[3], ![3] = a[2]]), DNeg(Number(Last.f, a)))
  /\ (Last.f = "Ra" => Eq(Number("Ra", a), DMul(Gr(a[1], a[2], a[3], a[5], a[6], Gravity), Pr(a[6], a[4]))))
(* the friction factors agree with each other where they are meant to       *)
Frictions == (Is("duct") /\ Last.f = "f_tr_Haaland" /\ ~Unusual(Last.a[1], Last.a[2], Last.a[3])) =>
  LET a == Last.a  fc == FColebrook(a[1], a[2], a[3])  fh == FHaaland(a[1], a[2], a[3]) IN
  /\ ColebrookOk(fc, a[1], a[2], a[3], "1e-12")
  /\ DClose(fc, fh, "0.03", "0")
  /\ (a[2] = "0" => DClose(FSmooth(a[1]), fc, "0.05", "0"))
  /\ DLe(FHaaland(a[1], "0", a[3]), fh)
=============================================================================
