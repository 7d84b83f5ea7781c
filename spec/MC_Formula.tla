----------------------------- MODULE MC_Formula -----------------------------
(* Formulas written from a structure are read back as that structure, and   *)
(* all short texts over a small alphabet.                                   *)
EXTENDS Formula, Json
CONSTANTS Syms, Nums, DotNums, Alphabet, MaxText

(* structures: an item is [e, g, n]; g = <<>> for an element *)
Items0 == {[e |-> s, g |-> <<>>, n |-> k] : s \in Syms, k \in Nums}
Seq12(S) == {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S}
Groups == {[e |-> "", g |-> i, n |-> k] : i \in Seq12(Items0), k \in Nums}
Groups2 == {[e |-> "", g |-> <<i>>, n |-> "3"] : i \in Groups}
Bodies == Seq12(Items0) \cup {<<x>> : x \in Groups \cup Groups2} \cup {<<x, y>> : x \in Groups, y \in Items0}
          \cup {<<x, y>> : x \in Items0, y \in Groups}
Dots == {<<>>} \cup {<<k, b>> : k \in DotNums, b \in {<<i>> : i \in Items0}}
Phases == {"", "[s]", "[S1]"}

RECURSIVE RenderItems(_, _)
RenderItem(i) == SCat(IF i.g = <<>> THEN i.e ELSE SCat("(", SCat(RenderItems(i.g, 1), ")")), i.n)
RenderItems(b, i) == IF i > Len(b) THEN "" ELSE SCat(RenderItem(b[i]), RenderItems(b, i + 1))
Render(f) == SCat(SCat(RenderItems(f.body, 1),
                       IF f.dot = <<>> THEN "" ELSE SCat(".", SCat(f.dot[1], RenderItems(f.dot[2], 1)))), f.phase)
Val(n) == IF n = "" THEN "1" ELSE n
RECURSIVE Count(_, _)
Count(b, i) == IF i > Len(b) THEN None
               ELSE Plus(Times(IF b[i].g = <<>> THEN Atom(b[i].e) ELSE Count(b[i].g, 1), Val(b[i].n)), Count(b, i + 1))
Meaning(f) == IF f.dot = <<>> THEN Count(f.body, 1)
              ELSE Plus(Count(f.body, 1), Times(Count(f.dot[2], 1), Val(f.dot[1])))

VARIABLES kind, f, text
vars == <<kind, f, text>>
Init == /\ kind \in {"structure", "text"}
        /\ IF kind = "structure"
           THEN /\ f \in [body : Bodies, dot : {<<>>}, phase : {""}]
                /\ text = Render(f)
           ELSE f = <<>> /\ text = ""
Type == /\ kind = "text" /\ SLen(text) < MaxText
        /\ \E c \in Alphabet : text' = SCat(text, c)
        /\ UNCHANGED <<kind, f>>
(* a structure gets a hydrate part and a phase *)
Dress == /\ kind = "structure" /\ f.dot = <<>> /\ f.phase = ""
         /\ \E d \in Dots, ph \in Phases : f' = [f EXCEPT !.dot = d, !.phase = ph]
         /\ text' = Render(f') /\ UNCHANGED kind
Next == Type \/ Dress
Spec == Init /\ [][Next]_vars
Emit == PrintT(<<"@@", ToJson(<<text'>>)>>)

ReadBack == kind = "structure" => LET p == Parse(text) IN p.ok /\ p.c = Meaning(f)
Fractions == kind = "structure" => LET c == Composition(text) IN
  ~DIsZero(MassOf(c)) =>
    DClose(DSum([i \in 1..1 |-> SumSet([e \in DOMAIN c |-> MassFraction(c, e)], DOMAIN c)]), "1", "1e-50", "1")
Inverse == kind = "structure" => LET c == Composition(text) IN
  ~DIsZero(MassOf(c)) => DClose(Mass(c, Amount(c, "7.5")), "7.5", "1e-50", "0")
Conserves == kind = "structure" => LET c == Composition(text) IN
  \A e \in DOMAIN c : ~DIsZero(At0(c, e)) =>
    LET t == Atom(e) IN DClose(DMul(Convert("3", c, t, e), MassFraction(t, e)), DMul("3", MassFraction(c, e)), "1e-50", "0")
Depth(cs) == LET RECURSIVE D(_, _) D(i, d) == IF i > Len(cs) \/ d < 0 THEN d
                  ELSE D(i + 1, IF cs[i] = "(" THEN d + 1 ELSE IF cs[i] = ")" THEN d - 1 ELSE d) IN D(1, 0)
Balanced == WellFormed(text) => Depth(SChars(text)) = 0 /\ SLen(text) > 0
=============================================================================
