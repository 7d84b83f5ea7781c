-------------------------- MODULE Trace_Thermochem --------------------------
(* Thermochemical functions and data files observed in the code.            *)
(* T01 the laws, T02 the library.                                           *)
EXTENDS Thermo, TraceKit
F == INSTANCE Formula

(* data: id -> [formula, ph: symbol -> phase]; dirs: d -> set of            *)
(* [kind, formula, id]; lib: formula -> id                                  *)
TInit == [data |-> <<>>, dirs |-> <<>>, lib |-> <<>>, refs |-> <<>>]
Put(R, r, p) == [x \in DOMAIN R \cup {r} |-> IF x = r THEN p ELSE R[x]]
Phases(ps) == [p \in {ps[i].p : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i].p = p]]
Got(q, i) == q[i].err = "" /\ DIsNum(q[i].v)

(* ---- the laws ---------------------------------------------------------- *)
Values(ph, T) ==
  LET cp == Cp(ph, T)  h == H(ph, T)  s == S(ph, T) IN
  [cp |-> cp, cl |-> CpLeft(ph, T), h |-> h, s |-> s, g |-> DSub(h, DMul(T, s)),
   ch |-> DAdd(HScale(ph, T), DAbs(h)), cs |-> DAdd(SScale(ph, T), DAbs(s)),
   cc |-> DAdd(DSum([i \in 1..Len(Last(ph).c) |-> DAbs(DMul(Last(ph).c[i], DPow(DMin(T, Last(ph).hi), Last(ph).e[i])))]), DAbs(cp))]
MolarOk(q, v, T) ==
  <<Got(q, 1) /\ (NearS(q[1].v, v.cp, v.cc) \/ NearS(q[1].v, v.cl, v.cc)),
    Got(q, 2) /\ NearS(q[2].v, v.h, v.ch), Got(q, 3) /\ NearS(q[3].v, v.s, v.cs),
    Got(q, 4) /\ NearS(q[4].v, v.g, DAdd(v.ch, DMul(T, v.cs)))>>
Molar(d, e, pre) ==
  LET ph == d.ph[e.phase]  v == Values(ph, e.T)  ok == MolarOk(e.q, v, e.T)  x == <<e, "expected", v, "data", ph>>
  IN IF pre = "T01."
     THEN <<Ck("T01.Cp", ok[1], x), Ck("T01.H", ok[2], x), Ck("T01.S", ok[3], x), Ck("T01.G", ok[4], x)>>
     ELSE <<Ck("T02.data", ok[1] /\ ok[2] /\ ok[3] /\ ok[4], x)>>
MassOf(d, e) ==
  LET ph == d.ph[e.phase]  T == Kelvin(e.t)  v == Values(ph, T)  M == F!MolarMass(d.formula)
      K(x) == PerMass(x, M, e.m)
      Ok(i, x, c) == Got(e.q, i) /\ NearS(e.q[i].v, K(x), K(c))
  IN Ok(1, v.cp, v.cc) /\ Ok(2, v.h, v.ch) /\ Ok(3, v.s, v.cs) /\ Ok(4, v.g, DAdd(v.ch, DMul(T, v.cs)))

(* ---- the library ------------------------------------------------------- *)
Files(s, d, kind) == IF d \in DOMAIN s.dirs THEN {f \in s.dirs[d] : f.kind = kind} ELSE {}
Loaded(s, e) == LET fs == Files(s, e.d, e.kind) IN
  [f \in {x.formula : x \in fs} |-> (CHOOSE x \in fs : x.formula = f).id]
Ref(s, k) == IF k = "" THEN "" ELSE s.refs[k]
Holds(s, lib, got) ==
  /\ {got[i].f : i \in 1..Len(got)} = DOMAIN lib
  /\ \A i \in 1..Len(got) :
       /\ got[i].own = got[i].f /\ got[i].ref = s.data[lib[got[i].f]].ref
       /\ got[i].text = Ref(s, got[i].ref)
       /\ {got[i].ps[j] : j \in 1..Len(got[i].ps)} = DOMAIN s.data[lib[got[i].f]].ph
       /\ \A j \in 1..(Len(got[i].ps) - 1) : SLt(got[i].ps[j], got[i].ps[j + 1])
RECURSIVE Join(_, _)
Join(ps, i) == IF i > Len(ps) THEN "" ELSE IF i = 1 THEN SCat(ps[1], Join(ps, 2)) ELSE SCat(", ", SCat(ps[i], Join(ps, i + 1)))
Lines(got) == [i \in 1..Len(got) |-> SCat(got[i].f, SCat(": ", Join(got[i].ps, 1)))]
(* the text of a phase *)
TextOf(p, ph) ==
  LET Rec(r) == <<<<"Cp", "RECORD:">>, <<"Tmin:", r.lo>>, <<"Tmax:", r.hi>>>>
                \o [i \in 1..Len(r.c) |-> <<r.c[i], r.e[i]>>]
      RECURSIVE All(_)
      All(i) == IF i > Len(ph.recs) THEN <<>> ELSE Rec(ph.recs[i]) \o All(i + 1)
  IN <<<<"PHASE:", p>>, <<"Name:", p>>, <<"Symbol:", p>>, <<"Tref:", "298.15">>, <<"DHref:", ph.dh>>,
       <<"Sref:", ph.s>>, <<"Cp", "record", SCat("count:", ToString(Len(ph.recs)))>>>> \o All(1)
TStep(s, e) ==
  CASE e.op = "case" -> [s EXCEPT !.dirs = <<>>, !.lib = <<>>]
    [] e.op = "data" -> [s EXCEPT !.data = Put(@, e.id, [formula |-> e.formula, ph |-> Phases(e.phases), ref |-> e.ref])]
    [] e.op = "dir" -> [s EXCEPT !.dirs = Put(@, e.d, {})]
    [] e.op = "file" -> [s EXCEPT !.dirs = Put(@, e.d, {f \in (IF e.d \in DOMAIN @ THEN @[e.d] ELSE {}) : ~(f.kind = e.kind /\ f.formula = e.formula)}
                                               \cup {[kind |-> e.kind, formula |-> e.formula, id |-> e.id]})]
    [] e.op = "load" -> [s EXCEPT !.lib = IF e.err = "" THEN Loaded(s, e) ELSE @]
    [] e.op = "made" -> [s EXCEPT !.lib = Put(@, e.formula, e.id)]
    [] e.op = "write" -> IF e.err # "" THEN s ELSE
         [s EXCEPT !.dirs = Put(@, e.d, {f \in (IF e.d \in DOMAIN @ THEN @[e.d] ELSE {}) : ~(f.kind = "auxi" /\ f.formula = e.formula)}
                                        \cup {[kind |-> "auxi", formula |-> e.formula, id |-> s.lib[e.formula]]})]
    [] e.op = "refs" -> [s EXCEPT !.refs = [k \in {e.refs[i].k : i \in 1..Len(e.refs)} |-> e.refs[CHOOSE i \in 1..Len(e.refs) : e.refs[i].k = k].v]]
    [] OTHER -> s

TJudge(s, e) ==
  CASE e.op = "molar" -> Molar(s.data[e.id], e, "T01.")
    [] e.op = "mass" -> IF e.id = "?" THEN <<>> ELSE <<Ck("T01.units", MassOf(s.data[e.id], e), <<e, s.data[e.id]>>)>>
    [] e.op = "nothing" -> <<Ck("T01.refused", e.err # "", e)>>
    [] e.op = "text" -> <<Ck("T02.text", e.err = "" /\ TextIs(e.text, TextOf(e.phase, s.data[e.id].ph[e.phase]), "1e-8"),
                          <<e, s.data[e.id].ph[e.phase]>>)>>
    [] e.op = "molar_mass" -> LET m == DDiv(F!MolarMass(e.formula), "1000") IN
         <<Ck("T01.molar_mass", Near(e.v, m) /\ Near(e.own, m), <<e, m>>)>>
    [] e.op = "load" -> <<Ck("T02.load", e.err = "" /\ Holds(s, Loaded(s, e), e.lib), <<e, "expected", Loaded(s, e)>>),
                          Ck("T02.listing", e.listing = Lines(e.lib), e)>>
    [] e.op = "write" -> <<Ck("T02.write", /\ e.err = "" /\ Holds(s, s.lib, e.lib)
                                          /\ {e.files[i] : i \in 1..Len(e.files)} =
                                             {SCat("Compound_", SCat(f.formula, ".json")) : f \in Files(s, e.d, "auxi") \cup {[formula |-> e.formula]}}, <<e, s.lib>>)>>
    [] e.op = "sample" -> IF e.formula \in DOMAIN s.lib /\ e.phase \in DOMAIN s.data[s.lib[e.formula]].ph
                          THEN Molar(s.data[s.lib[e.formula]], e, "T02.") ELSE <<>>
    [] e.op = "refs" -> <<Ck("T02.references", e.got = e.refs, e)>>
    [] e.op = "shipped" ->
         <<Ck("T02.shipped",
              /\ e.lib # "default" => Len(e.got) = Len(e.files)
              /\ \A i \in 1..Len(e.got) : \E j \in 1..Len(e.files) :
                   /\ e.files[j].f = e.got[i].f /\ e.files[j].ps = e.got[i].ps
                   /\ e.got[i].text = Ref(s, e.files[j].ref), e),
           Ck("T02.default", Len(e.got) = Len(e.files), e),
           Ck("T02.listing", e.listing = Lines(e.got), e)>>
    [] OTHER -> <<>>

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
