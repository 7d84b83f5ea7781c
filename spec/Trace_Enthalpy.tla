--------------------------- MODULE Trace_Enthalpy ---------------------------
(* Histories of packages (M04) and streams (M05) with energy judged against *)
(* Enthalpy, with the enthalpy of compounds given by Thermo.                *)
EXTENDS Enthalpy, TraceKit
Th == INSTANCE Thermo
F == INSTANCE Formula

TInit == [kind |-> "", comp |-> <<>>, mats |-> <<>>, regs |-> <<>>]
Put(R, r, p) == [x \in DOMAIN R \cup {r} |-> IF x = r THEN p ELSE R[x]]
Pre(s) == IF s.kind = "stream" THEN "M05." ELSE "M04."
C(s, n) == SCat(Pre(s), n)
CompsOf(s, p) == s.mats[p.mat].comps
Pos(x) == DLt("0", x)

(* ---- enthalpies -------------------------------------------------------- *)
HC(s, c, T, m) == LET d == s.comp[c] IN Th!PerMass(Th!H(d.ph, Th!Kelvin(T)), d.M, m)
HCScale(s, c, T, m) == LET d == s.comp[c] IN DAbs(Th!PerMass(DAdd(Th!HScale(d.ph, Th!Kelvin(T)), DAbs(Th!H(d.ph, Th!Kelvin(T)))), d.M, m))
(* dry ash free coal (Merrick 1983) *)
Pure(s, c, e) == DOMAIN s.comp[c].frac = {e}
Daf == <<"C", "H", "O", "N", "S">>
Burnt == <<"CO2[G]", "H2O[L]", "O2[G]", "N2[G]", "SO2[G]">>
DafMasses(s, p) == LET cs == CompsOf(s, p) IN
  [k \in 1..5 |-> DSum([i \in 1..Len(cs) |-> IF Pure(s, cs[i], Daf[k]) THEN p.m[i] ELSE "0"])]
G0(x) == DDiv("1", DSub(DExp(x), "1"))
DafH(ms, T) == \* kWh of the daf part, relative to 0 K
  LET amounts == DSum([k \in 1..5 |-> DDiv(ms[k], F!MassOf(F!Atom(Daf[k])))]) IN
  DDiv(DMul(DMul(DMul("1000", Th!GasR), amounts),
            DAdd(DMul("380", G0(DDiv("380", T))), DMul("3600", G0(DDiv("1800", T))))), "3.6e6")
BurntH(s, ms) ==
  DSum([k \in 1..5 |-> LET e == F!Composition(Daf[k])  t == s.comp[Burnt[k]].compo IN
          HC(s, Burnt[k], "25", F!Convert(ms[k], e, t, Daf[k]))])
HCoal(s, p, T) ==
  LET cs == CompsOf(s, p)  ms == DafMasses(s, p) IN
  DAdd(DAdd(DSum([i \in 1..Len(cs) |-> IF \E k \in 1..5 : Pure(s, cs[i], Daf[k]) THEN "0" ELSE HC(s, cs[i], T, p.m[i])]),
            DSub(DafH(ms, Th!Kelvin(T)), DafH(ms, "298.15"))),
       DAdd(DDiv(DMul(p.hhv, Mass(p)), "3.6"), BurntH(s, ms)))
HAt(s, p, T) == IF p.coal THEN HCoal(s, p, T)
                ELSE LET cs == CompsOf(s, p) IN DSum([i \in 1..Len(cs) |-> IF DIsZero(p.m[i]) THEN "0" ELSE HC(s, cs[i], T, p.m[i])])
HSize(s, p, T) == LET cs == CompsOf(s, p) IN
  DAdd(DSum([i \in 1..Len(cs) |-> IF DIsZero(p.m[i]) THEN "0" ELSE HCScale(s, cs[i], T, p.m[i])]),
       IF p.coal THEN DMul(DAdd(p.hhv, "10"), DAbs(Mass(p))) ELSE "0")
(* a temperature is solved for until the enthalpies agree to 1e-5 kWh, or  *)
(* 1e-5 kWh/kg if there is less than a kilogram                            *)
Slack(m) == DMul("1e-5", DMin("1", DAbs(m)))
Within1(a, b, slack, scale) == DIsNum(a) /\ DIsNum(b) /\ DLe(DAbs(DSub(a, b)), DAdd(slack, DMul("1e-9", DAbs(scale))))
FirstLaw(s, o) == Pos(Mass(o)) => DIsNum(o.T) /\ Within1(o.H, HAt(s, o, o.T), Slack(Mass(o)), HSize(s, o, o.T))

(* ---- registers --------------------------------------------------------- *)
RegFn(rs) == [r \in {rs[i].r : i \in 1..Len(rs)} |->
                LET x == rs[CHOOSE i \in 1..Len(rs) : rs[i].r = r] IN
                [mat |-> x.mat, m |-> x.m, P |-> x.P, T |-> x.T, H |-> x.H, coal |-> x.coal, hhv |-> x.hhv, props |-> x.props]]
(* does observation o agree with expectation x, starting from mass before  *)
Agrees(s, o, x, before) ==
  LET sc == DAdd(DAdd(DAbs(Mass(x)), DAbs(Mass(o))), before)
      t == IF x.T = Solve THEN o.T ELSE x.T
      h == IF x.H = At THEN HAt(s, x, t) ELSE x.H
  IN /\ o.mat = x.mat /\ Len(o.m) = Len(x.m) /\ o.coal = x.coal
     /\ \A i \in 1..Len(x.m) : NearW(o.m[i], x.m[i], sc)
     /\ DEq(o.P, x.P)
     /\ (x.T # Solve => Near(o.T, x.T)) /\ DIsNum(o.T)
     /\ (x.coal => Near(o.hhv, x.hhv))
     /\ Within1(o.H, h, DMul("3", Slack(sc)), DAdd(HSize(s, x, t), DMul(before, "1e-6")))

AssayOf(m, a) == m.assays[CHOOSE i \in 1..Len(m.assays) : m.assays[i].a = a]
HasAssay(m, a) == \E i \in 1..Len(m.assays) : m.assays[i].a = a
Full(p, coal, hhv) == p @@ [coal |-> coal, hhv |-> hhv, props |-> <<>>]
OverLimit(x, lim) == DGt(x, DMul(lim, "1.000000001")) /\ DGt(x, lim)
UnderLimit(x, lim, have) == DLe(x, DMul(lim, "0.999999999999")) \/ DEq(x, have)
Ok(f) == [must |-> "yes", set |-> f]
No == [must |-> "no", set |-> <<>>]
Two(e, t) == Put(e.a :> t.left, e.out, t.taken)
Nothing(s, p) == Full(EmptyOf(p.mat, Len(p.m), "1", "25"), FALSE, "0")
(* heat of combustion of a compound at 25 C: only the elements of daf coal *)
Heat(s, c, x) ==
  IF \E k \in 1..5 : Pure(s, c, Daf[k])
  THEN LET k == CHOOSE j \in 1..5 : Pure(s, c, Daf[j]) IN
       DMul("3.6", DSub(HC(s, c, "25", x), BurntH(s, [j \in 1..5 |-> IF j = k THEN x ELSE "0"])))
  ELSE "0"
HeatOf(s, cs, m) == DSum([i \in 1..Len(cs) |-> Heat(s, cs[i], m[i])])
(* the heating value follows the content: q is p after a change of content *)
Heated(s, p, q) ==
  IF ~p.coal THEN q
  ELSE LET cs == CompsOf(s, p) IN
       [q EXCEPT !.hhv = DDiv(DAdd(DMul(p.hhv, Mass(p)), HeatOf(s, cs, [i \in 1..Len(cs) |-> DSub(q.m[i], p.m[i])])), Mass(q))]
MixHHV(s, p, q, r) ==
  IF ~p.coal THEN r
  ELSE IF q.coal THEN [r EXCEPT !.hhv = DDiv(DAdd(DMul(p.hhv, Mass(p)), DMul(q.hhv, Mass(q))), DAdd(Mass(p), Mass(q)))]
  ELSE Heated(s, p, r)
(* what is taken out of coal compound by compound is not coal any more *)
Parts(s, p, t) == IF ~p.coal THEN t ELSE [taken |-> [t.taken EXCEPT !.coal = FALSE, !.hhv = "0"], left |-> Heated(s, p, t.left)]

Effect(s, e) ==
  LET R == s.regs IN
  CASE e.op = "new" -> LET m == s.mats[e.mat] IN
         IF ~HasAssay(m, e.assay) THEN No
         ELSE LET a == AssayOf(m, e.assay)  p == Create(e.mat, a.fr, e.mass, e.norm, e.P, e.T) IN
              Ok(e.r :> Full(IF Pos(Mass(p)) THEN p ELSE [p EXCEPT !.H = "0"], a.coal,
                            IF a.hhv = "none" THEN DDiv(HeatOf(s, m.comps, p.m), Mass(p)) ELSE a.hhv))
    [] e.op = "empty" -> Ok(e.r :> Full(EmptyOf(e.mat, Len(s.mats[e.mat].comps), "1", "25"), FALSE, "0"))
    [] e.op = "add" ->
         LET p == R[e.a]  q == R[e.b]  cp == CompsOf(s, p)  cq == CompsOf(s, q) IN
         IF ~Within(cq, cp) THEN No ELSE Ok(e.out :> MixHHV(s, p, q, Mix(p, q, cp, cq)))
    [] e.op = "addcomp" -> IF e.i > Len(R[e.a].m) THEN No ELSE Ok(e.out :> Heated(s, R[e.a], AddSame(R[e.a], e.i, e.x)))
    [] e.op = "addhot" ->
         IF e.i > Len(R[e.a].m) THEN No
         ELSE Ok(e.out :> Heated(s, R[e.a], AddHot(R[e.a], e.i, e.x, HC(s, CompsOf(s, R[e.a])[e.i], e.T, e.x))))
    [] e.op = "mul" -> IF DLt(e.k, "0") THEN No ELSE Ok(e.out :> Scale(R[e.a], e.k))
    [] e.op = "takemass" ->
         IF OverLimit(e.x, Mass(R[e.a])) THEN No
         ELSE [must |-> IF UnderLimit(e.x, Mass(R[e.a]), e.have) THEN "yes" ELSE "either", set |-> Two(e, TakeMass(R[e.a], e.x))]
    [] e.op = "takecomp" ->
         IF e.i > Len(R[e.a].m) THEN Ok(e.out :> Nothing(s, R[e.a]))
         ELSE IF DGt(e.x, R[e.a].m[e.i]) THEN No ELSE Ok(Two(e, Parts(s, R[e.a], TakeComp(R[e.a], e.i, e.x))))
    [] e.op = "takeall" ->
         IF e.i > Len(R[e.a].m) THEN Ok(e.out :> Nothing(s, R[e.a])) ELSE Ok(Two(e, Parts(s, R[e.a], TakeAll(R[e.a], e.i))))
    [] e.op = "takemat" ->
         LET p == R[e.a]  t == TakeMat(p, CompsOf(s, p), e.mat, s.mats[e.mat].comps) IN
         Ok(Two(e, [taken |-> Full(t.taken, FALSE, "0"), left |-> Heated(s, p, t.left)]))
    [] e.op = "clear" -> Ok(e.a :> Cleared(R[e.a]))
    [] e.op = "clone" -> Ok(e.out :> R[e.a])
    [] e.op = "setT" -> Ok(e.a :> SetT(R[e.a], e.T))
    [] e.op = "setP" -> Ok(e.a :> SetP(R[e.a], e.P))
    [] e.op = "setH" -> Ok(e.a :> SetH(R[e.a], e.H))
    [] e.op = "prop" -> Ok(e.a :> R[e.a])
    [] e.op = "bad" -> No
    [] OTHER -> Ok(<<>>)

Group(op) == CASE op \in {"new", "empty"} -> "create" [] op \in {"add", "addcomp", "addhot"} -> "add"
               [] op \in {"takemass", "takecomp", "takeall", "takemat"} -> "extract" [] op = "mul" -> "scale"
               [] op \in {"setT", "setH", "setP", "prop"} -> "set" [] OTHER -> op

(* every compound and the energy are in one of the two parts *)
Conserved(s, e, R) ==
  LET b == s.regs[e.a]  t == R[e.out]  l == R[e.a]  sc == DAbs(Mass(b))
      ct == CompsOf(s, t)  cb == CompsOf(s, b)
      Part(p, cs, c) == IF Has(cs, c) THEN p.m[Index(cs, c)] ELSE "0"
  IN /\ \A i \in 1..Len(cb) : NearS(DAdd(Part(t, ct, cb[i]), l.m[i]), b.m[i], sc)
     /\ Within1(DAdd(t.H, l.H), b.H, DMul("3", Slack(Mass(b))), HSize(s, b, b.T))
SetProps(e, ps) == {[k |-> e.k, v |-> e.v]} \cup {ps[i] : i \in {j \in 1..Len(ps) : ps[j].k # e.k}}

OpClauses(s, e) ==
  LET ef == Effect(s, e)
      O == RegFn(e.regs)
      failed == e.err # ""
      ks == DOMAIN ef.set
      before == IF "a" \in DOMAIN e /\ e.a \in DOMAIN s.regs THEN DAbs(Mass(s.regs[e.a])) ELSE "0"
      Untouched(S) == \A r \in DOMAIN s.regs \ S : r \in DOMAIN O /\ O[r] = s.regs[r]
  IN IF ef.must = "no" \/ (ef.must = "either" /\ failed)
     THEN <<Ck(C(s, "refused"), failed /\ O = s.regs, <<e, "should be refused and change nothing", s.regs>>),
            Ck("M07.refused", failed, <<e, "should have been refused">>),
            Ck("M07.unchanged", O = s.regs, <<e, "was refused but changed", s.regs>>)>>
     ELSE IF failed THEN <<Ck(C(s, Group(e.op)), FALSE, e), Ck("M07.accepted", FALSE, e)>>
     ELSE <<Ck("M07.accepted", TRUE, ""),
            Ck("M06.operands", DOMAIN O = DOMAIN s.regs \cup ks /\ Untouched(ks), <<e, "before", s.regs>>),
            Ck(C(s, Group(e.op)), \A r \in ks : r \in DOMAIN O /\ Agrees(s, O[r], ef.set[r], before), <<e, "expected", ef.set, "before", s.regs>>),
            Ck(C(s, "first_law"), \A r \in ks : r \in DOMAIN O /\ FirstLaw(s, O[r]), <<e>>),
            Ck(C(s, "others"), DOMAIN O = DOMAIN s.regs \cup ks /\ Untouched(ks), <<e, "before", s.regs>>)>>
          \o If(Group(e.op) = "extract" /\ e.a # e.out, <<Ck(C(s, "conserved"), Conserved(s, e, O), <<e, "before", s.regs>>)>>)
          \o If(e.op = "clone", <<Ck(C(s, "copy"), O[e.out] = s.regs[e.a], <<e>>)>>)
          \o If(e.op = "prop", <<Ck(C(s, "props"), {O[e.a].props[i] : i \in 1..Len(O[e.a].props)} = SetProps(e, s.regs[e.a].props), <<e>>)>>)

(* ---- printed ----------------------------------------------------------- *)
Ruler(l) == Len(l) = 1 /\ (SPrefix("===", l[1]) \/ SPrefix("---", l[1]))
Text(t) == SelectSeq(t, LAMBDA l : ~Ruler(l))
Rows(names, Cols(_)) == [i \in 1..Len(names) |-> <<names[i]>> \o Cols(i)]
PackageText(s, e) ==
  LET p == s.regs[e.a]  m == s.mats[p.mat]  n == Len(m.comps)  t == Mass(p)
      am == [i \in 1..n |-> DDiv(p.m[i], s.comp[m.comps[i]].M)]
      flow == s.kind = "stream"
      Fr(x, y) == IF Pos(t) THEN DDiv(x, y) ELSE "0"
      U(u) == IF flow THEN SCat(u, "/h") ELSE u
      Hd(w) == IF flow THEN <<w, "Flow", "Rate">> ELSE <<w>>
  IN <<<<IF flow THEN "MaterialStream" ELSE "MaterialPackage">>, <<"Material", m.seen.name>>,
       Hd("Mass") \o <<t, U("kg")>>, Hd("Amount") \o <<DSum(am), U("kmol")>>,
       <<"Pressure", p.P, "atm">>, <<"Temperature", p.T, "degC">>, Hd("Enthalpy") \o <<p.H, U("kWh")>>>>
     \o If(p.coal, <<<<"HHV", p.hhv, "MJ/kg">>>>)
     \o <<<<"Compound", "Details">>, <<"Formula", "Mass", "Mass", "Fraction", "Mole", "Fraction">>>>
     \o Rows(m.comps, LAMBDA i : <<IF Pos(t) THEN p.m[i] ELSE "0", Fr(p.m[i], t), Fr(am[i], DSum(am))>>)
     \o If(p.props # <<>>, <<<<"Custom", "Properties:">>>> \o [i \in 1..Len(p.props) |-> <<p.props[i].k, p.props[i].v>>])
(* rows and columns may be in any order: they are found by their names      *)
MaterialTextOk(s, e) ==
  LET m == s.mats[e.m].seen  t == Text(e.text)  n == Len(m.comps)
      head == IF Len(t) > 3 THEN SubSeq(t[4], 2, Len(t[4])) ELSE <<>>
      k == Len(head)
      names == IF Len(t) >= 4 + n THEN [i \in 1..n |-> t[4 + i][1]] ELSE <<>>
      \* a heading is the name of its assay, of which a long one may be cut to its first 15 characters
      Heads(h, a) == h = a \/ (Len(SChars(h)) >= 15 /\ SPrefix(h, a))
      \* the assay of each column; those whose cut names are alike may come in either order
      Whose == {f \in [1..k -> 1..Len(m.assays)] : /\ \A j \in 1..k : Heads(head[j], m.assays[f[j]].a)
                                                   /\ \A i, j \in 1..k : f[i] = f[j] => i = j}
      X(f) == <<<<"Material">>, <<"Name", m.name>>, <<"Composition", "Details", "(mass", "fractions)">>, <<"Compound">> \o head>>
           \o Rows(names, LAMBDA i : [j \in 1..k |-> m.assays[f[j]].raw[Index(m.comps, names[i])]])
           \o <<<<"Total">> \o [j \in 1..k |-> DSum(m.assays[f[j]].raw)]>>
           \o If(m.custom # <<>>, <<<<"Custom", "Properties:">>>>)
      keys == {m.custom[i].k : i \in 1..Len(m.custom)}
      V(a, p) == LET y == {j \in 1..Len(m.custom) : m.custom[j].a = a /\ m.custom[j].k = p} IN
                 IF y = {} THEN "nan" ELSE m.custom[CHOOSE j \in y : TRUE].v
      Shown(f) ==
        LET x == X(f)
            rest == IF Len(t) >= Len(x) THEN SubSeq(t, Len(x) + 1, Len(t)) ELSE <<>>
        IN /\ Len(t) >= Len(x) /\ TextIs(SubSeq(t, 1, Len(x)), x, "6e-9")
           /\ Len(rest) = F!Cardinality(keys) /\ {rest[i][1] : i \in 1..Len(rest)} = keys
           /\ \A i \in 1..Len(rest) : LineIs(rest[i], <<rest[i][1]>> \o [j \in 1..k |-> V(m.assays[f[j]].a, rest[i][1])], "6e-9")
  IN /\ k = Len(m.assays)
     /\ {names[i] : i \in 1..Len(names)} = {m.comps[i] : i \in 1..n}
     /\ \E f \in Whose : Shown(f)

QueryClauses(s, e) ==
  LET p == s.regs[e.a]  t == Mass(p)  m == s.mats[p.mat]  n == Len(m.comps)
      am == [i \in 1..n |-> DDiv(p.m[i], s.comp[m.comps[i]].M)]
      El(x) == DSum([i \in 1..n |-> LET f == s.comp[m.comps[i]].frac IN IF x \in DOMAIN f THEN DMul(p.m[i], f[x]) ELSE "0"])
      ex == [i \in 1..Len(m.elements) |-> El(m.elements[i])]
      L(o) == Len(o) = Len(ex) /\ \A i \in 1..Len(ex) : NearS(o[i], ex[i], t)
  IN <<Ck(C(s, "others"), RegFn(e.regs) = s.regs, <<e, "a query changed something", s.regs>>),
       Ck("M06.operands", RegFn(e.regs) = s.regs, <<e, "a query changed something", s.regs>>),
       Ck(C(s, "mass"), NearS(e.mass, t, "1e-300") /\ DIsZero(e.none), <<e, t>>),
       Ck(C(s, "amounts"), /\ SeqNear(e.amounts, am, "1e-300") /\ SeqNear(e.each, am, "1e-300")
                           /\ NearS(e.amount, DSum(am), "1e-300"), <<e, am>>),
       Ck(C(s, "elements"), /\ e.els = m.elements /\ L(e.elm) /\ L(e.el1) /\ Len(e.el2) = 2
                            /\ NearS(e.el2[1], El("O"), t) /\ DIsZero(e.el2[2])
                            /\ {e.eld[i].e : i \in 1..Len(e.eld)} = {m.elements[i] : i \in 1..Len(ex)}
                            /\ \A i \in 1..Len(e.eld) : NearS(e.eld[i].v, El(e.eld[i].e), t)
                            /\ NearS(DSum(e.elm), t, t), <<e, ex>>)>>
     \o <<Ck(IF s.kind = "stream" THEN "M09.stream" ELSE "M09.package", TextIs(Text(e.text), PackageText(s, e), "6e-9"),
              <<e.text, "expected", PackageText(s, e)>>)>>
     \o If(Pos(t), <<Ck(C(s, "assay"), Len(e.assay) = n /\ \A i \in 1..n : NearS(e.assay[i], DDiv(p.m[i], t), "1"), e)>>)

(* ---- materials --------------------------------------------------------- *)
Same(x, y) == x.a = y.a /\ x.k = y.k /\ DEq(x.v, y.v)
MaterialOk(s, e) ==
  LET els == UNION {DOMAIN s.comp[e.comps[i]].frac : i \in 1..Len(e.comps)} IN
  /\ e.mat.comps = e.comps /\ e.mat.name = e.title /\ e.mat.text = SCat("about ", e.title)
  /\ Len(e.mat.custom) = Len(e.custom)
  /\ \A i \in 1..Len(e.custom) : \E j \in 1..Len(e.mat.custom) : Same(e.custom[i], e.mat.custom[j])
  /\ {e.mat.elements[i] : i \in 1..Len(e.mat.elements)} = els /\ Len(e.mat.elements) = F!Cardinality(els)
  /\ Len(e.mat.assays) = Len(e.assays)
  /\ \A i \in 1..Len(e.assays) : \E j \in 1..Len(e.mat.assays) :
       /\ e.mat.assays[j].a = e.assays[i].a /\ e.mat.assays[j].raw = e.mat.assays[j].fr
       /\ Len(e.mat.assays[j].fr) = Len(e.assays[i].fr)
       /\ \A k \in 1..Len(e.assays[i].fr) : DEq(e.mat.assays[j].fr[k], e.assays[i].fr[k])
  /\ \A i \in 1..Len(e.assays) : NearS(e.totals[i], DSum(e.assays[i].fr), "1")
(* an assay that is added is one more; nothing else changes *)
CanAdd(s, e) == LET m == s.mats[e.name] IN e.shape = "array" /\ Len(e.fr) = Len(m.comps) /\ ~HasAssay(m, e.a)
AddedOk(s, e) ==
  LET old == s.mats[e.name].seen  L(as) == SelectSeq(as, LAMBDA x : x.a # e.a)
      new == SelectSeq(e.mat.assays, LAMBDA x : x.a = e.a) IN
  /\ e.err = "" /\ [e.mat EXCEPT !.assays = <<>>] = [old EXCEPT !.assays = <<>>]
  /\ L(e.mat.assays) = old.assays /\ Len(new) = 1
  /\ new[1].raw = new[1].fr /\ Len(new[1].fr) = Len(e.fr)
  /\ \A k \in 1..Len(e.fr) : DEq(new[1].fr[k], e.fr[k])
  /\ NearS(e.total, DSum(e.fr), "1")
Blank(s, e) == Len(e.blank) = Len(s.mats[e.name].comps) /\ \A i \in 1..Len(e.blank) : DIsZero(e.blank[i])
Compound(e) == LET c == F!Composition(e.formula) IN
  [ph |-> e.ph, M |-> F!MassOf(c), compo |-> c, frac |-> [x \in DOMAIN c |-> F!MassFraction(c, x)]]

TStep(s, e) ==
  CASE e.op = "kind" -> [TInit EXCEPT !.kind = e.kind]
    [] e.op = "compound" -> [s EXCEPT !.comp = Put(@, e.c, Compound(e))]
    [] e.op = "material" -> [s EXCEPT !.mats = Put(@, e.name, [comps |-> e.comps, assays |-> e.assays, elements |-> e.mat.elements,
                                                              coal |-> e.coal, seen |-> e.mat])]
    [] e.op \in {"case", "unchanged", "coalpackage", "coalback"} -> s
    [] e.op = "addassay" ->
         IF ~CanAdd(s, e) THEN s
         ELSE [s EXCEPT !.mats[e.name].assays = Append(@, [a |-> e.a, fr |-> e.fr, coal |-> FALSE, hhv |-> "0"]),
                        !.mats[e.name].seen = e.mat]
    [] OTHER -> [s EXCEPT !.regs = RegFn(e.regs)]
TJudge(s, e) ==
  CASE e.op \in {"case", "kind", "compound"} -> <<>>
    [] e.op = "material" -> <<Ck(C(s, "material"), MaterialOk(s, e), e), Ck("M08.read", MaterialOk(s, e), e)>>
    [] e.op = "addassay" ->
         LET can == CanAdd(s, e)
             ok == Blank(s, e) /\ IF can THEN AddedOk(s, e) ELSE e.err # "" /\ e.mat = s.mats[e.name].seen
         IN <<Ck("M07.accepted", can => e.err = "", e),
              Ck(C(s, "assays"), ok, <<e, s.mats[e.name]>>),
              Ck(IF can THEN "M08.assay_added" ELSE "M07.assay_refused", ok, <<e, s.mats[e.name]>>)>>
    [] e.op = "unchanged" -> <<Ck(C(s, "others"), e.mat = s.mats[e.m].seen, <<e, s.mats[e.m].seen>>),
                               Ck("M09.material", MaterialTextOk(s, e), <<e.text, "expected", s.mats[e.m].seen>>),
                               Ck("M06.material", e.mat = s.mats[e.m].seen, <<e, s.mats[e.m].seen>>)>>
    [] e.op = "coalpackage" -> <<Ck("M04.KF1", e.err = "", e)>>
    [] e.op = "coalback" -> <<Ck("M05.KF1", e.err = "" /\ Near(e.hhv, e.hhv0) /\ NearS(e.T, "25", "1e6"), e)>>
    [] e.op = "query" -> QueryClauses(s, e)
    [] OTHER -> OpClauses(s, e)

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
