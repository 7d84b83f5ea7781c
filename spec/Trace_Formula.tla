---------------------------- MODULE Trace_Formula ----------------------------
(* Formulas and conversions observed in the code judged against Formula.    *)
EXTENDS Formula, TraceKit

TInit == 0
TStep(s, e) == s

AllErr(es) == \A i \in 1..Len(es) : es[i] # ""
NoErr(es) == \A i \in 1..Len(es) : es[i] = ""
Val(ps, c) == ps[CHOOSE i \in 1..Len(ps) : ps[i].c = c].v
Keys(ps) == {ps[i].c : i \in 1..Len(ps)}

FormulaClauses(e) ==
  LET p == Parse(e.text) IN
  IF e.text = ""
  THEN <<Ck("S01.accept", e.errs[1] = "" /\ \A i \in 2..6 : e.errs[i] # "", e),
         Ck("S02.molar_mass", DIsZero(e.molar), e.molar)>>
  ELSE IF ~p.ok THEN <<Ck("S01.accept", AllErr(e.errs), <<e.text, "is not a formula", e>>)>>
  ELSE <<Ck("S01.accept", NoErr(e.errs), <<e.text, "is a formula", e.errs>>)>>
       \o If(NoErr(e.errs),
         LET M == MassOf(p.c)  n == Len(e.els) IN
         <<Ck("S01.composition", /\ Len(e.coefs) = n
                                 /\ \A i \in 1..n : DEq(e.coefs[i], At0(p.c, e.els[i]))
                                 /\ DEq(e.coef, At0(p.c, e.els[1])), <<e, "expected", p.c>>),
           Ck("S01.elements", {e.elements[i] : i \in 1..Len(e.elements)} = DOMAIN p.c
                              /\ Len(e.elements) = Cardinality(DOMAIN p.c), <<e.text, e.elements, "expected", p.c>>),
           Ck("S02.molar_mass", Near(e.molar, M), <<e.text, e.molar, "expected", M>>),
           Ck("S02.fractions", /\ Len(e.fracs) = n
                               /\ \A i \in 1..n : NearS(e.fracs[i], MassFraction(p.c, e.els[i]), "1e-12")
                               /\ NearS(e.frac, MassFraction(p.c, e.els[n]), "1e-12"), <<e, "molar mass", M>>)>>)

MixtureClauses(e) ==
  IF ~NoErr(e.errs) THEN <<Ck("S02.mixture", FALSE, e.errs)>>
  ELSE
  LET K == Keys(e.arg)
      M == [c \in K |-> MolarMass(c)]
      N == [c \in K |-> DDiv(Val(e.arg, c), M[c])]
      W == [c \in K |-> DMul(Val(e.arg, c), M[c])]
      tn == SumSet(N, K)  tw == SumSet(W, K)
      Like(obs, F) == Keys(obs) = K /\ Len(obs) = Cardinality(K) /\ \A c \in K : NearS(Val(obs, c), F[c], "0")
      El == UNION {DOMAIN Composition(c) : c \in K}
  IN <<Ck("S02.amounts", Like(e.amounts, N) /\ Near(e.amount, N[e.one]), <<e, "expected", N>>),
       Ck("S02.masses", Like(e.masses, W) /\ Near(e.mass, W[e.one]), <<e, "expected", W>>),
       Ck("S02.inverse", Near(e.back, Val(e.arg, e.one)), e),
       Ck("S02.amount_fractions", Like(e.xs, [c \in K |-> DDiv(N[c], tn)]), <<e, "expected", N, tn>>),
       Ck("S02.mass_fractions", Like(e.ys, [c \in K |-> DDiv(W[c], tw)]), <<e, "expected", W, tw>>),
       Ck("S02.sum", NearS(DSum([i \in 1..Len(e.xs) |-> e.xs[i].v]), "1", "1")
                     /\ NearS(DSum([i \in 1..Len(e.ys) |-> e.ys[i].v]), "1", "1"), e),
       Ck("S02.pure", e.same, "the argument was changed"),
       Ck("S01.elements", {e.elements[i] : i \in 1..Len(e.elements)} = El, <<e.elements, El>>)>>

ConvertClauses(e) ==
  LET a == Composition(e.src)  b == Composition(e.tgt) IN
  <<Ck("S02.convert", e.err = "" /\ NearS(e.res, Convert(e.m, a, b, e.el), "0"), <<e, "expected", Convert(e.m, a, b, e.el)>>)>>
  \o If(e.err = "" /\ ~DIsZero(At0(b, e.el)),
        <<Ck("S02.conserves", NearS(DMul(e.res, MassFraction(b, e.el)), DMul(e.m, MassFraction(a, e.el)), "0"), e)>>)

TJudge(s, e) ==
  CASE e.op = "formula" -> FormulaClauses(e)
    [] e.op = "mixture" -> MixtureClauses(e)
    [] e.op = "convert" -> ConvertClauses(e)
    [] OTHER -> <<>>

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
