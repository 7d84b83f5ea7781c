-------------------------- MODULE Trace_Transport --------------------------
(* Surfaces, regions, ducts and numbers, judged against Transport.          *)
EXTENDS Transport, TraceKit

TInit == [seen |-> <<>>, k |-> <<>>]

(* the properties of the fluid at the temperatures that count               *)
RowAt(e, T) == LET near == {i \in 1..Len(e.at) : DClose(e.at[i].T, T, "1e-13", "0")} IN e.at[CHOOSE i \in near : TRUE]
Props(e) ==
  LET a == RowAt(e, BetaT(e.gas, e.q.Ts, e.q.Tf))  b == RowAt(e, FilmT(e.gas, e.q.Ts, e.q.Tf)) IN
  [beta |-> a.beta, nu |-> b.nu, alpha |-> b.alpha, k |-> b.k]
Within(e) == LET p == Props(e) IN DIsNum(p.beta) /\ DIsNum(p.nu) /\ DIsNum(p.alpha) /\ (e.f \in {"h_x", "h_L"} => DIsNum(p.k))
PlateKey(e) == <<e.i, e.gas, e.f, e.q, e.at>>
PlateClauses(s, e) ==
  (IF ~ThetaOk(e.q.theta) \/ ~Within(e) THEN <<Ck("N01.refused", e.err # "", e)>>
   ELSE LET vs == Plate(e.f, e.q, Props(e)) IN
        <<Ck("N01.value", e.err = "" /\ \E v \in vs : Near(e.v, v), <<e, "expected", vs>>)>>)
  \o LET key == PlateKey(e) IN
     If(key \in DOMAIN s.seen, <<Ck("N01.again", s.seen[key] = <<e.err, e.v>>, <<e, "the first time", s.seen[key]>>)>>)

Warned(e) == e.warn /\ Unusual(e.a[1], e.a[2], e.a[3])
DuctValue(f, a) ==
  CASE f = "f_l" -> FLaminar(a[1])
    [] f = "f_ts" -> FSmooth(a[1])
    [] f = "f_tr_Haaland" -> FHaaland(a[1], a[2], a[3])
    [] f = "D_h" -> HydraulicD(a[1], a[2])
    [] f = "drop" -> Drop(a[1], a[2], a[3], a[4], a[5])
DuctClauses(e) ==
  (IF e.f = "f_tr_Colebrook"
   THEN <<Ck("N03.colebrook", e.err = "" /\ ColebrookOk(e.v, e.a[1], e.a[2], e.a[3], "1e-6"), e)>>
   ELSE <<Ck("N03.value", e.err = "" /\ Near(e.v, DuctValue(e.f, e.a)), <<e, "expected", DuctValue(e.f, e.a)>>)>>)
  \o If(e.f = "f_tr_Haaland", <<Ck("N03.warned", e.said = Warned(e), e)>>)

K(s, n) == s.k[n]
TStep(s, e) ==
  CASE e.op = "case" -> TInit
    [] e.op = "plate" -> LET key == PlateKey(e) IN IF key \in DOMAIN s.seen THEN s ELSE [s EXCEPT !.seen = (key :> <<e.err, e.v>>) @@ @]
    [] e.op = "const" -> [s EXCEPT !.k = (e.n :> e.v) @@ @]
    [] OTHER -> s
TJudge(s, e) ==
  CASE e.op = "case" -> <<>>
    [] e.op = "const" -> LET k(n) == s.k[n] IN <<Ck("N02.constant", DIsNum(e.v) /\ ConstantOk(e.n, e.v, k), e)>>
    [] e.op = "fluids" -> <<Ck("N01.fluids", e.n >= 2, e)>>
    [] e.op = "plate" -> PlateClauses(s, e)
    [] e.op = "region" -> <<Ck("N01.region", e.err = "" /\ e.v = In(e.r, e.theta, e.ra), e)>>
    [] e.op = "number" -> LET v == Number(e.f, e.a) IN
         <<Ck("N02.number", e.err = "" /\ NearS(e.v, v, NumberSize(e.f, e.a)), <<e, "expected", v>>)>>
    [] e.op = "duct" -> DuctClauses(e)

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
