------------------------------ MODULE MC_Thermo ------------------------------
(* A phase is heated stepwise.  What it takes up on the way, worked out from *)
(* the heat capacity alone, must be what H, S and G say.                     *)
EXTENDS Thermo, Json
CONSTANTS Temps, MaxRecs
Quick == <<"350", "600", "700", "800", "1000", "1200", "2500">>
Deep == <<"298.2", "350", "500", "600", "601", "700", "799.9", "800", "950", "1000", "1001", "1200", "1500", "1700", "2500", "6000">>

(* records to choose from, by the range they get *)
Shapes == {[c |-> <<"30">>, e |-> <<"0">>],
           [c |-> <<"20", "0.01", "-2e5">>, e |-> <<"0", "1", "-2">>],
           [c |-> <<"5", "900", "40">>, e |-> <<"0.5", "-1", "0">>]}
Limits == <<"298.15", "600", "1000", "1500">>
Mags == {<<>>, <<"800", "2.2", "0.4">>}
Rec(i, sh) == [lo |-> Limits[i], hi |-> Limits[i + 1], c |-> sh.c, e |-> sh.e]

VARIABLES ph, T, h, s, left, hist
vars == <<ph, T, h, s, left, hist>>
TSeq == Temps
Init == /\ \E n \in 1..MaxRecs, m \in Mags : \E f \in [1..n -> Shapes] :
             ph = [dh |-> "-1000", s |-> "50", recs |-> [i \in 1..n |-> Rec(i, f[i])], mag |-> m]
        /\ T = "298.15" /\ h = ph.dh /\ s = ph.s /\ left = TSeq
        /\ hist = <<[op |-> "phase", dh |-> ph.dh, s |-> ph.s, recs |-> ph.recs, mag |-> ph.mag], [op |-> "at", T |-> T]>>

(* heat taken up between two temperatures, piece by piece *)
RECURSIVE Uptake(_, _, _, _, _)
Uptake(F(_, _, _), i, a, b, const) ==
  IF DLe(b, a) THEN "0"
  ELSE IF i > Len(ph.recs) THEN const
  ELSE LET r == ph.recs[i]  x == DMax(a, r.lo)  y == DMin(b, r.hi) IN
       DAdd(IF DLt(x, y) THEN F(r, x, y) ELSE "0",
            IF DLe(b, r.hi) THEN "0" ELSE Uptake(F, i + 1, DMax(a, r.hi), b, const))
Top == Last(ph).hi
Heat == /\ left # <<>>
        /\ LET b == left[1]  x == DMax(T, Top) IN
           /\ T' = b /\ left' = Tail(left)
           /\ h' = DAdd(h, Uptake(HPiece, 1, T, b, IF DLt(x, b) THEN DMul(CpEnd(ph), DSub(b, x)) ELSE "0"))
           /\ s' = DAdd(s, Uptake(SPiece, 1, T, b, IF DLt(x, b) THEN DMul(CpEnd(ph), DLn(DDiv(b, x))) ELSE "0"))
           /\ hist' = Append(hist, [op |-> "at", T |-> b])
        /\ UNCHANGED ph
Next == Heat
Spec == Init /\ [][Next]_vars
View == <<ph, T, left>>
Emit == PrintT(<<"@@", ToJson(hist')>>)

Eq(a, b) == DClose(a, b, "1e-45", "1")
Path == Eq(h, LH(ph, T)) /\ Eq(s, LS(ph, T))
(* where the records meet nothing jumps *)
Continuous == \A i \in 1..(Len(ph.recs) - 1) : LET t == ph.recs[i].hi  u == DAdd(t, "1e-12") IN
  DClose(H(ph, t), H(ph, u), "1e-9", "1") /\ DClose(S(ph, t), S(ph, u), "1e-9", "1")
(* G = H - TS, dG/dT = -S, dH/dT = Cp, dS/dT = Cp/T (central differences,  *)
(* away from the limits and the critical temperature)                      *)
Step == "1e-9"
Smooth == /\ \A i \in 1..Len(Limits) : ~DEq(T, Limits[i])
          /\ (Magnetic(ph) => ~DEq(T, ph.mag[1]))
Slope(F(_, _)) == DDiv(DSub(F(ph, DAdd(T, Step)), F(ph, DSub(T, Step))), DMul("2", Step))
Derivatives == Smooth =>
  /\ DClose(Slope(H), Cp(ph, T), "1e-12", "1")
  /\ DClose(Slope(S), DDiv(Cp(ph, T), T), "1e-12", "1")
  /\ DClose(Slope(G), DNeg(S(ph, T)), "1e-12", "1")
=============================================================================
