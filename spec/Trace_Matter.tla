---------------------------- MODULE Trace_Matter ----------------------------
(* Property models, data sets, fits and materials, judged against Matter.   *)
EXTENDS Matter, TraceKit

TInit == [seen |-> <<>>, by |-> <<>>]
Idealgas == {"BetaT", "RhoT", "RhoTP", "RhoTPx"}
Slags == {"UrbainX", "UrbainY", "RiboudX", "RiboudY"}
Pre(k) == CASE k \in Idealgas -> "F01." [] k \in {"Wilke", "Herning", "IdealCp"} -> "F02." [] k \in Slags -> "F03."
            [] k = "Poly" -> "F04." [] OTHER -> "F05."
C(k, n) == SCat(Pre(k), n)

(* a call is judged unless its value is not defined: at 0 K, or without any *)
(* component that counts                                                    *)
HasX(m) == m.kind \in {"Wilke", "Herning", "IdealCp", "UrbainX", "RiboudX"}
Comp(m, st) == IF m.kind \in {"UrbainY", "RiboudY"} THEN Get(st, "y").d ELSE IF HasX(m) THEN Get(st, "x").d ELSE <<>>
Missing(m, e, a) == LET p == PureOf(e.pure, a.c) IN IF m.kind = "IdealCp" THEN p.Cp = "" ELSE p.mu = ""
Lacks(e) == \* a pure gas without a value at this temperature
  Gasy(e.model) /\ \E i \in 1..Len(Known(Get(e.state, "x").d)) : Missing(e.model, e, Known(Get(e.state, "x").d)[i])
Defined(e) ==
  /\ DLt("0", Get(e.state, "T").v)
  /\ (e.model.kind \in {"DafCp", "DafH"} => DLe("1", Get(e.state, "T").v)) \* below, the values are too small for a double
  /\ (e.model.kind \in Slags => DLe("500", Get(e.state, "T").v))
  /\ (Gasy(e.model) => DLt("0", Total(Known(Get(e.state, "x").d))))
  /\ (e.model.kind \in Slags => DLt("0", Total(Comp(e.model, e.state))))
CallClauses(s, e) ==
  LET k == e.model.kind IN
  <<Ck("F06.pure", e.after = e.state, e)>>
  \o (IF ~Accepts(e.model, e.state)
      THEN <<Ck("F06.refused", e.err # "", e), Ck(C(k, "refused"), e.err # "", e)>>
      ELSE IF ~Defined(e) THEN <<>>
      ELSE IF Lacks(e) THEN <<Ck("F02.outside", e.err # "", e)>>
      ELSE LET v == Value(e.model, e.state, e.pure) IN
           IF ~DIsNum(v) THEN <<>>
           ELSE <<Ck("F06.accepted", e.err = "", e),
                  Ck(C(k, "value"), e.err = "" /\ NearS(e.v, v, Size(e.model, e.state)), <<e, "expected", v>>)>>)
  \o LET key == <<e.model, e.state>> IN
     If(key \in DOMAIN s.seen, <<Ck("F06.again", s.seen[key] = <<e.err, e.v>>, <<e, "the first time", s.seen[key]>>)>>)

(* ---- data sets --------------------------------------------------------- *)
(* a text is read back as it was written                                    *)
SameData(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : a[i].s = b[i].s /\ Len(a[i].v) = Len(b[i].v) /\ \A j \in 1..Len(a[i].v) : DEq(a[i].v[j], b[i].v[j])
SameSet(a, b) == [a EXCEPT !.data = <<>>] = [b EXCEPT !.data = <<>>] /\ SameData(a.data, b.data)
(* a least squares fit: the residuals are orthogonal to the powers of T     *)
Residual(e, i) == DSub(e.at[i], e.y[i])
Pw(t, q) == IF q = 0 THEN "1" ELSE DPow(t, q)
Orthogonal(e) ==
  /\ Len(e.at) = Len(e.T) /\ \A i \in 1..Len(e.T) : DIsNum(e.at[i])
  /\ \A q \in 0..e.deg :
       LET w(i) == Pw(e.T[i], q) IN
       DLe(DAbs(DSum([i \in 1..Len(e.T) |-> DMul(Residual(e, i), w(i))])),
           DMul("1e-7", DSum([i \in 1..Len(e.T) |-> DMul(DAdd(DAbs(e.at[i]), DAbs(e.y[i])), w(i))])))
(* the values at the data points are those of a polynomial of that degree:  *)
(* divided differences of higher order vanish                               *)
RECURSIVE Divided(_, _, _, _)
Divided(t, v, i, j) == IF i = j THEN v[i] ELSE DDiv(DSub(Divided(t, v, i + 1, j), Divided(t, v, i, j - 1)), DSub(t[j], t[i]))
RECURSIVE Prod1(_, _, _, _)
Prod1(t, i, j, n) == IF j > n THEN "1" ELSE DMul(IF j = i THEN "1" ELSE DSub(t[i], t[j]), Prod1(t, i, j + 1, n))
Prod(t, i, n) == Prod1(t, i, 1, n)
RECURSIVE Firsts(_, _, _)
Firsts(t, i, out) == \* the indices at which a value of t comes up first
  IF i > Len(t) THEN out
  ELSE Firsts(t, i + 1, IF \E k \in 1..Len(out) : DEq(t[out[k]], t[i]) THEN out ELSE Append(out, i))
IsPoly(e) ==
  LET ix == Firsts(e.T, 1, <<>>)
      T == [i \in 1..Len(ix) |-> e.T[ix[i]]]
      at == [i \in 1..Len(ix) |-> e.at[ix[i]]]
      n == e.deg + 2
      d == Divided(T, at, 1, n)
      size == DSum([i \in 1..n |-> DDiv(DAbs(at[i]), DAbs(Prod(T, i, n)))])
  IN Len(ix) >= n => DLe(DAbs(d), DMul("1e-6", size))
MetaOk(s, e) ==
  LET c == s.by[CHOOSE i \in 1..Len(s.by) : s.by[i].s = e.s] IN
  /\ e.meta.material = e.material /\ e.meta.property = c.name /\ e.meta.symbol = e.s
  /\ e.meta.display = c.display /\ e.meta.units = c.units /\ e.meta.datasets = <<e.d>>
MaxOf(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : DLe(q[i], x)
MinOf(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : DLe(x, q[i])
Limits(e) == \A i \in 1..Len(e.probe) :
  LET p == e.probe[i] IN (p.err = "") <=> (DLe(MinOf(e.T), p.T) /\ DLe(p.T, MaxOf(e.T)))

(* shipped models follow their data within 4 %, of the largest value if the *)
(* property changes sign                                                    *)
Follows(e, tol) ==
  /\ Len(e.T) >= 5 /\ Len(e.v) = Len(e.y)
  /\ LET neg == \E i \in 1..Len(e.y) : DLt(e.y[i], "0")
         sc == IF neg THEN MaxOf(e.y) ELSE "0"
     IN \A i \in 1..Len(e.y) : DIsNum(e.v[i]) /\ DClose(e.v[i], e.y[i], tol, sc)

(* the columns of a shipped data set are numbers and agree with each other  *)
AllNumbers(d) == Len(d) > 2 /\ \A i \in 1..Len(d) : Len(d[i].v) > 2 /\ Len(d[i].v) = Len(d[1].v) /\ \A j \in 1..Len(d[i].v) : DIsNum(d[i].v[j])
HasCol(d, q) == \E i \in 1..Len(d) : d[i].s = q
Col(d, q) == d[CHOOSE i \in 1..Len(d) : d[i].s = q].v
AllClose(a, b(_)) == \A j \in 1..Len(a) : DClose(a[j], b(j), "0.05", "0")
Coherent(d) ==
  /\ ((HasCol(d, "nu") /\ HasCol(d, "mu") /\ HasCol(d, "rho")) => LET f(j) == DDiv(Col(d, "mu")[j], Col(d, "rho")[j]) IN AllClose(Col(d, "nu"), f))
  /\ (HasCol(d, "alpha") => LET f(j) == DDiv(DDiv(Col(d, "k")[j], Col(d, "rho")[j]), Col(d, "Cp")[j]) IN AllClose(Col(d, "alpha"), f))
  /\ (HasCol(d, "Pr") => LET f(j) == DDiv(Col(d, "nu")[j], Col(d, "alpha")[j]) IN AllClose(Col(d, "Pr"), f))

(* ---- materials --------------------------------------------------------- *)
ValOf(e, q) == e.vals[CHOOSE i \in 1..Len(e.vals) : e.vals[i].s = q]
Given(e, q) == ValOf(e, q).own
Expect(e, q) == \* "" if there is none
  LET x == ValOf(e, q) IN
  IF x.own THEN x.w
  ELSE IF q = "alpha" THEN LET a == ValOf(e, "k") b == ValOf(e, "rho") c == ValOf(e, "Cp") IN
         IF a.own /\ b.own /\ c.own /\ DIsNum(a.w) /\ DIsNum(b.w) /\ DIsNum(c.w) /\ ~DIsZero(b.w) /\ ~DIsZero(c.w) THEN DDiv(DDiv(a.w, b.w), c.w) ELSE ""
  ELSE IF q = "nu" THEN LET a == ValOf(e, "mu") b == ValOf(e, "rho") IN
         IF a.own /\ b.own /\ DIsNum(a.w) /\ DIsNum(b.w) /\ ~DIsZero(b.w) THEN DDiv(a.w, b.w) ELSE ""
  ELSE ""
MaterialClauses(e) ==
  IF e.err # "" THEN <<Ck("F06.material", FALSE, e)>>
  ELSE <<Ck("F06.material", e.name = "Own" /\ e.text = e.want /\ e.state = e.wstate /\ e.kept, e)>>
       \o [i \in 1..Len(e.vals) |->
            LET x == e.vals[i]  w == Expect(e, x.s) IN
            Ck(IF x.own THEN "F06.own" ELSE "F06.default",
               IF w = "" THEN x.err # "" ELSE x.err = "" /\ Near(x.v, w), <<x, "expected", w, e>>)]

TStep(s, e) ==
  CASE e.op = "case" -> [seen |-> <<>>, by |-> <<>>]
    [] e.op = "call" -> LET key == <<e.model, e.state>> IN
         IF key \in DOMAIN s.seen THEN s ELSE [s EXCEPT !.seen = (key :> <<e.err, e.v>>) @@ @]
    [] e.op = "dataset" -> [s EXCEPT !.by = e.want.by]
    [] OTHER -> s
TJudge(s, e) ==
  CASE e.op = "case" -> <<>>
    [] e.op = "call" -> CallClauses(s, e)
    [] e.op = "dataset" -> <<Ck("F04.read", e.err = "" /\ SameSet(e.got, e.want), e)>>
    [] e.op = "again" -> <<Ck("F04.read", SameSet(e.got, e.want), e)>>
    [] e.op = "fit" ->
         IF e.err # "" THEN <<Ck("F04.fit", FALSE, e)>>
         ELSE <<Ck("F04.fit", Orthogonal(e), e), Ck("F04.degree", IsPoly(e), e),
                Ck("F04.metadata", MetaOk(s, e), e), Ck("F04.limits", Limits(e), e)>>
    [] e.op = "template" ->
         <<Ck("F04.template", /\ e.err = "" /\ e.files = <<SCat(SCat("dataset-", e.lower), ".csv")>> /\ e.material = e.name
                              /\ Len(e.symbols) >= 2 /\ e.symbols[1] = "T" /\ e.columns = Len(e.symbols)
                              /\ Len(e.rows) = e.columns /\ \A i \in 1..Len(e.rows) : e.rows[i] > 0, e)>>
    [] e.op = "shipped" -> <<Ck("F04.shipped", e.err = "" /\ Len(e.datasets) > 0 /\ Follows(e, "0.04"), e)>>
    [] e.op = "shipmat" -> <<Ck("F06.shipped", e.name = e.want /\ e.state = (IF e.key = "H2O(l)" THEN "liquid" ELSE "gas"), e)>>
    [] e.op = "shipprop" -> <<Ck("F06.data", Follows(e, "0.05"), e)>>
    [] e.op = "shipset" -> <<Ck("F06.numeric", AllNumbers(e.data), e), Ck("F06.coherent", Coherent(e.data), e)>>
    [] e.op = "material" -> MaterialClauses(e)

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
