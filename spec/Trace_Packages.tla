--------------------------- MODULE Trace_Packages ---------------------------
(* Histories of packages observed in the code judged against Packages.      *)
(* M01 chem, M02 psd, M03 slurry, M06 operands, M07 refusals, M08 files.    *)
EXTENDS Packages, Formula, TraceKit

TInit == [kind |-> "", mats |-> <<>>, regs |-> <<>>]
P(s) == CASE s.kind = "chem" -> "M01." [] s.kind = "psd" -> "M02." [] OTHER -> "M03."

(* ---- reading material files ------------------------------------------- *)
RECURSIVE Words(_, _, _, _)
Words(cs, i, cur, out) ==
  IF i > Len(cs) THEN (IF cur = "" THEN out ELSE Append(out, cur))
  ELSE IF cs[i] = " " THEN Words(cs, i + 1, "", IF cur = "" THEN out ELSE Append(out, cur))
  ELSE Words(cs, i + 1, SCat(cur, cs[i]), out)
Row(line) == Words(SChars(line), 1, "", <<>>)
FileMaterial(kind, lines) ==
  LET rows == [i \in 1..Len(lines) |-> Row(lines[i])]
      names == SubSeq(rows[1], 2, Len(rows[1]))
      first == IF kind = "slurry" THEN 4 ELSE 2
      full == SelectSeq(SubSeq(rows, first, Len(rows)), LAMBDA x : Len(x) = Len(names) + 1)
  IN [comps |-> [i \in 1..Len(full) |-> full[i][1]],
      assays |-> [j \in 1..Len(names) |->
        [a |-> names[j], fr |-> [i \in 1..Len(full) |-> full[i][j + 1]],
         dens |-> IF kind = "slurry" THEN rows[2][j + 1] ELSE "1",
         h2o |-> IF kind = "slurry" THEN rows[3][j + 1] ELSE "0"]]]
SameAssay(x, y) == /\ Len(x.fr) = Len(y.fr) /\ \A i \in 1..Len(x.fr) : DEq(x.fr[i], y.fr[i])
                   /\ DEq(x.dens, y.dens) /\ DEq(x.h2o, y.h2o)
SameName(kind, x, y) == IF kind = "chem" THEN x = y ELSE DEq(x, y)
SameMaterial(kind, f, o) ==
  /\ Len(o.comps) = Len(f.comps) /\ \A i \in 1..Len(f.comps) : SameName(kind, f.comps[i], o.comps[i])
  /\ Len(o.assays) = Len(f.assays)
  /\ \A i \in 1..Len(f.assays) : \E j \in 1..Len(o.assays) :
       o.assays[j].a = f.assays[i].a /\ SameAssay(f.assays[i], o.assays[j])
AssayOf(m, a) == m.assays[CHOOSE i \in 1..Len(m.assays) : m.assays[i].a = a]
HasAssay(m, a) == \E i \in 1..Len(m.assays) : m.assays[i].a = a

(* ---- packages ---------------------------------------------------------- *)
RegFn(rs) == [r \in {rs[i].r : i \in 1..Len(rs)} |->
                LET x == rs[CHOOSE i \in 1..Len(rs) : rs[i].r = r] IN [mat |-> x.mat, m |-> x.m, w |-> x.w, d |-> x.d]]
CompsOf(s, p) == s.mats[p.mat].comps
(* content equal up to rounding, relative to the size of the packages that  *)
(* took part: what is left after taking everything is rounding of the whole *)
Like(p, q, before) ==
  LET sc == DAdd(DAdd(DAbs(Mass(p)), DAbs(Mass(q))), before) IN
  /\ p.mat = q.mat /\ Len(p.m) = Len(q.m)
  /\ \A i \in 1..Len(p.m) : NearW(p.m[i], q.m[i], sc)
  /\ NearW(p.w, q.w, sc) /\ Near(p.d, q.d)

Put(R, r, p) == [x \in DOMAIN R \cup {r} |-> IF x = r THEN p ELSE R[x]]
OverLimit(x, lim) == DGt(x, DMul(lim, "1.000000001")) /\ DGt(x, lim)
UnderLimit(x, lim, have) == DLe(x, DMul(lim, "0.999999999999")) \/ DEq(x, have)

(* What an operation must do: must = "yes" (succeed), "no" (be refused) or *)
(* "either"; regs = the registers it assigns, with their content.          *)
Ok(f) == [must |-> "yes", set |-> f]
No == [must |-> "no", set |-> <<>>]
Eith(f) == [must |-> "either", set |-> f]
Effect(s, e) ==
  LET R == s.regs IN
  CASE e.op = "new" ->
         IF ~HasAssay(s.mats[e.mat], e.assay) THEN No
         ELSE Ok(e.r :> Create(e.mat, AssayOf(s.mats[e.mat], e.assay), e.mass, e.norm))
    [] e.op = "empty" -> Ok(e.r :> EmptyOf(e.mat, s.mats[e.mat].comps))
    [] e.op \in {"add", "addto"} ->
         LET p == R[e.a]  q == R[e.b]  cp == CompsOf(s, p)  cq == CompsOf(s, q) IN
         IF ~Within(cq, cp) THEN No
         ELSE Ok((IF e.op = "add" THEN e.out ELSE e.a) :> Add(p, q, cp, cq))
    [] e.op \in {"addcomp", "addtocomp"} ->
         IF e.i > Len(R[e.a].m) THEN No
         ELSE Ok((IF e.op = "addcomp" THEN e.out ELSE e.a) :> AddComp(R[e.a], e.i, e.x))
    [] e.op = "mul" -> IF DLt(e.k, "0") THEN No ELSE Ok(e.out :> Scale(R[e.a], e.k))
    [] e.op = "takemass" ->
         LET t == TakeMass(R[e.a], e.x)  f == Put(e.a :> t.left, e.out, t.taken) IN
         IF OverLimit(e.x, Mass(R[e.a])) THEN No
         ELSE IF UnderLimit(e.x, Mass(R[e.a]), e.have) THEN Ok(f) ELSE Eith(f)
    [] e.op = "takecomp" ->
         IF e.i > Len(R[e.a].m) THEN No
         ELSE LET t == TakeComp(R[e.a], e.i, e.x) IN
              IF DGt(e.x, Content(R[e.a], e.i)) THEN No ELSE Ok(Put(e.a :> t.left, e.out, t.taken))
    [] e.op = "takeall" ->
         IF e.i > Len(R[e.a].m) THEN No
         ELSE LET t == TakeAll(R[e.a], e.i) IN Ok(Put(e.a :> t.left, e.out, t.taken))
    [] e.op = "clear" -> Ok(e.a :> Cleared(R[e.a]))
    [] e.op = "clone" -> Ok(e.out :> R[e.a])
    [] e.op = "bad" -> No
    [] OTHER -> Ok(<<>>)

Group(op) == CASE op \in {"new", "empty"} -> "create" [] op \in {"add", "addto", "addcomp", "addtocomp"} -> "add"
               [] op \in {"takemass", "takecomp", "takeall"} -> "extract" [] op = "mul" -> "scale" [] OTHER -> op

(* what is taken and what is left make up what was there, and nothing else *)
Conserved(s, e, R) ==
  LET b == s.regs[e.a]  t == R[e.out]  l == R[e.a]  sc == DAbs(Mass(b)) IN
  /\ \A i \in 1..Len(b.m) : NearS(DAdd(t.m[i], l.m[i]), b.m[i], sc)
  /\ NearS(DAdd(t.w, l.w), b.w, sc)

OpClauses(s, e) ==
  LET ef == Effect(s, e)
      O == RegFn(e.regs)
      failed == e.err # ""
      refused == ef.must = "no" \/ (ef.must = "either" /\ failed)
      ks == DOMAIN ef.set
      before == IF "a" \in DOMAIN e THEN DAbs(Mass(s.regs[e.a])) ELSE "0"
      Untouched(S) == \A r \in DOMAIN s.regs \ S : r \in DOMAIN O /\ O[r] = s.regs[r]
      assigned == IF e.op = "bad" THEN {} ELSE ks
  IN IF refused
     THEN <<Ck("M07.refused", failed, <<e, "should have been refused">>),
            Ck("M07.unchanged", O = s.regs, <<e, "was refused but changed", s.regs>>)>>
     ELSE IF failed THEN <<Ck(SCat(P(s), SCat(Group(e.op), "")), FALSE, e), Ck("M07.accepted", FALSE, e)>>
     ELSE <<Ck("M07.accepted", TRUE, ""),
            Ck(SCat(P(s), Group(e.op)), \A r \in ks : r \in DOMAIN O /\ Like(O[r], ef.set[r], before), <<e, "expected", ef.set>>),
            Ck("M06.operands", DOMAIN O = DOMAIN s.regs \cup ks /\ Untouched(assigned), <<e, "before", s.regs>>)>>
          \o If(Group(e.op) = "extract" /\ e.a # e.out,
                <<Ck(SCat(P(s), "conserved"), Conserved(s, e, O), <<e, "before", s.regs>>)>>)

(* ---- printed ----------------------------------------------------------- *)
Rows(names, Cols(_)) == [i \in 1..Len(names) |-> <<names[i]>> \o Cols(i)]
PackageText(s, e) ==
  LET p == s.regs[e.a]  m == s.mats[p.mat]  t == Mass(p)  v == Volume(p)
      body == <<<<"Component", "masses:">>>> \o Rows(m.comps, LAMBDA i : <<p.m[i]>>)
  IN <<<<"MaterialPackage">>, <<"material", m.title>>>>
     \o (IF s.kind # "slurry" THEN <<<<"mass", t>>>>
         ELSE <<<<"mass", "fraction", "solids", e.slurry[4]>>, <<"volume", "fraction", "solids", e.slurry[5]>>,
                <<"solid", "density", p.d>>, <<"slurry", "density", Density(p)>>, <<"mass", t>>, <<"H2O", "mass", p.w>>, <<"volume", v>>>>)
     \o body
(* (the fractions are those the package gives; M03 judges them)           *)
(* columns are in the order of the names of the assays; found by name here  *)
MaterialText(s, e, head) ==
  LET m == s.mats[e.m]  n == Len(head)
      A(j) == AssayOf(m, head[j])
      Col(G(_)) == [j \in 1..n |-> G(A(j))]
  IN <<<<"Material:", SCat("name='", SCat(m.title, "'"))>>, <<"Compound">> \o head>>
     \o (IF s.kind # "slurry" THEN <<>>
         ELSE <<<<"Solid", "density">> \o Col(LAMBDA a : a.dens), <<"H2O", "fraction">> \o Col(LAMBDA a : a.h2o)>>)
     \o Rows(m.comps, LAMBDA i : Col(LAMBDA a : a.fr[i]))
MaterialTextOk(s, e) ==
  LET m == s.mats[e.m]  head == IF Len(e.text) > 1 THEN SubSeq(e.text[2], 2, Len(e.text[2])) ELSE <<>> IN
  /\ Len(head) = Len(m.assays) /\ \A i \in 1..Len(m.assays) : \E j \in 1..Len(head) : head[j] = m.assays[i].a
  /\ TextIs(e.text, MaterialText(s, e, head), Tol)

(* ---- queries ----------------------------------------------------------- *)
Table(m) == [e \in {m.elements[i] : i \in 1..Len(m.elements)} |->
              [i \in 1..Len(m.comps) |-> MassFraction(Composition(m.comps[i]), e)]]
QueryClauses(s, e) ==
  LET p == s.regs[e.a]  t == Mass(p)  so == Solids(p)  m == s.mats[p.mat]
      base == IF s.kind = "chem" THEN t ELSE so
      F(f) == Len(f) = Len(p.m) /\ \A i \in 1..Len(f) : NearS(f[i], DDiv(p.m[i], base), "1")
  IN <<Ck("M06.operands", RegFn(e.regs) = s.regs, <<e, "a query changed a package", s.regs>>),
       Ck(SCat(P(s), "mass"), NearS(e.mass, t, "1e-300"), <<e, "expected", t>>),
       Ck(SCat(P(s), "components"), e.each = p.m, e)>>
     \o If(e.fracs # <<>>, <<Ck(SCat(P(s), "fractions"), F(e.fracs) /\ F(e.assay), <<e, "expected", p, base>>)>>)
     \o If(s.kind = "chem",
        LET ex == [i \in 1..Len(m.elements) |-> DDot(p.m, m.table[m.elements[i]])]
            L(o) == Len(o) >= Len(ex) /\ \A i \in 1..Len(ex) : NearS(o[i], ex[i], t)
        IN <<Ck("M01.elements", /\ e.els = m.elements /\ Len(e.elm) = Len(ex) /\ L(e.elm)
                               /\ L(e.el1) /\ DIsZero(e.el1[Len(ex) + 1])
                               /\ Len(e.eld) = Len(ex)
                               /\ \A i \in 1..Len(ex) : \E j \in 1..Len(e.eld) : e.eld[j].e = m.elements[i] /\ NearS(e.eld[j].v, ex[i], t),
                <<e, "expected", ex>>),
             Ck("M01.element_total", NearS(DSum(e.elm), t, t), <<e, t>>)>>)
     \o If(e.text # <<>>, <<Ck("M09.package", TextIs(e.text, PackageText(s, e), Tol), <<e, "expected", PackageText(s, e)>>)>>)
     \o If(s.kind = "slurry" /\ e.slurry # <<>>,
        LET v == Volume(p) IN
        <<Ck("M03.derived", /\ Near(e.slurry[1], so) /\ Near(e.slurry[2], v) /\ Near(e.slurry[3], Density(p))
                            /\ NearS(e.slurry[4], DDiv(so, t), "1")
                            /\ NearS(e.slurry[5], DDiv(DDiv(so, p.d), v), "1"),
             <<e, "expected", so, v, Density(p)>>)>>)

ElementsOf(m) == UNION {DOMAIN Composition(m.comps[i]) : i \in 1..Len(m.comps)}
Loaded(s, e) == [title |-> e.title, comps |-> e.mat.comps, assays |-> e.mat.assays, elements |-> e.mat.elements,
                 table |-> IF s.kind = "chem" THEN Table(e.mat) ELSE <<>>]
Pub(m) == [comps |-> m.comps, assays |-> m.assays, elements |-> m.elements]
AssayClauses(s, e) ==
  LET m == Pub(s.mats[e.m])
      refuse == ~e.ok \/ Len(e.fr) # Len(m.comps) \/ HasAssay(m, e.name)
  IN IF refuse THEN <<Ck("M07.assay_refused", e.err # "" /\ e.mat = m, <<e, "material before", m>>)>>
     ELSE <<Ck("M07.accepted", e.err = "", e),
            Ck("M08.assay_added",
               /\ e.err = "" /\ e.mat.comps = m.comps /\ Len(e.mat.assays) = Len(m.assays) + 1
               /\ \A i \in 1..Len(m.assays) : AssayOf(e.mat, m.assays[i].a) = m.assays[i]
               /\ SameAssay(AssayOf(e.mat, e.name), [fr |-> e.fr, dens |-> e.dens, h2o |-> e.h2o]), <<e, m>>)>>

TStep(s, e) ==
  CASE e.op = "kind" -> [TInit EXCEPT !.kind = e.kind]
    [] e.op = "file" -> IF e.err = "" THEN [s EXCEPT !.mats = Put(@, e.name, Loaded(s, e))] ELSE s
    [] e.op = "assay" -> [s EXCEPT !.mats[e.m].assays = e.mat.assays]
    [] e.op \in {"case", "totals", "unchanged", "badfile"} -> s
    [] OTHER -> [s EXCEPT !.regs = RegFn(e.regs)]

TJudge(s, e) ==
  CASE e.op \in {"case", "kind"} -> <<>>
    [] e.op = "file" ->
         <<Ck("M08.read", e.err = "" /\ SameMaterial(s.kind, FileMaterial(s.kind, e.lines), e.mat), e)>>
         \o If(e.err = "" /\ s.kind = "chem",
               <<Ck("M08.elements", {e.mat.elements[i] : i \in 1..Len(e.mat.elements)} = ElementsOf(e.mat)
                                    /\ \A i \in 1..(Len(e.mat.elements) - 1) : SLt(e.mat.elements[i], e.mat.elements[i + 1]), e)>>)
    [] e.op = "badfile" -> <<Ck("M08.bad_file", e.err # "", e)>>
    [] e.op = "totals" ->
         LET m == s.mats[e.m] IN
         <<Ck("M08.totals", /\ Len(e.res) = Len(m.assays)
                            /\ \A i \in 1..Len(e.res) : NearS(e.res[i].t, DSum(AssayOf(m, e.res[i].a).fr), "1")
                            /\ e.index = [i \in 1..Len(m.comps) |-> i]
                            /\ Len(e.empty) = Len(m.comps) /\ e.again = e.empty /\ \A i \in 1..Len(e.empty) : DIsZero(e.empty[i]), <<e, m.assays>>),
             Ck("M09.material", MaterialTextOk(s, e), <<e.text, m>>)>>
    [] e.op = "unchanged" -> <<Ck("M06.material", e.mat = Pub(s.mats[e.m]), <<e.mat, "was", Pub(s.mats[e.m])>>)>>
    [] e.op = "assay" -> AssayClauses(s, e)
    [] e.op = "query" -> QueryClauses(s, e)
    [] OTHER -> OpClauses(s, e)

VARIABLES l, st, bad, cnt
R == INSTANCE TraceRun WITH TInit0 <- TInit, TStep0 <- TStep, TJudge0 <- TJudge
Init == R!RInit
Next == R!RNext
=============================================================================
