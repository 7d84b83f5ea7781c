------------------------------ MODULE Support ------------------------------
(***************************************************************************)
(* Supporting objects: projects, variables and process models with their   *)
(* ports; bibliographies; paths and dates given as text.                   *)
(***************************************************************************)
EXTENDS Calendar, Sequences, FiniteSets, TLC, Big

(* --- named objects: a kind and a value for every field ------------------ *)
Ports == {"parameters", "input_variables", "output_variables"}
Fields(kind) ==
  CASE kind = "project" -> {"name", "description"}
    [] kind \in {"variable", "group"} -> {"name", "description", "value", "units", "category"}
    [] OTHER -> {"name", "description"}
(* "own" is a process model of the user with parameters of its own kind *)
OwnOnes == ("parameters.rate" :> "float 1.5") @@ ("output_variables.done" :> "bool False")
Initial(kind) == CASE kind = "own" -> OwnOnes
                   [] kind = "heir" -> OwnOnes @@ ("input_variables.feed" :> "int 3")
                   [] kind = "namesake" -> ("input_variables.x1" :> "str b")
                   [] OTHER -> <<>>
NewObj(kind, given) ==
  [kind |-> kind, f |-> [x \in Fields(kind) |-> IF x \in DOMAIN given THEN given[x] ELSE "NoneType None"]
                        @@ Initial(kind)]
Make(s, id, kind, given) == (id :> NewObj(kind, given)) @@ s
(* a field or, in a process model, something in a port is set *)
Put(s, id, x, v) == [s EXCEPT ![id].f = (x :> v) @@ @]
Call(s, id) == s[id].f["value"]

(* --- bibliographies ----------------------------------------------------- *)
Upper == SChars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LowerL == SChars("abcdefghijklmnopqrstuvwxyz")
LowerC == [c \in {Upper[i] : i \in 1..26} |-> LowerL[CHOOSE i \in 1..26 : Upper[i] = c]]
RECURSIVE Glue(_, _)
Glue(cs, i) == IF i > Len(cs) THEN "" ELSE SCat(cs[i], Glue(cs, i + 1))
Lower(w) == LET cs == SChars(w) IN
            Glue([i \in 1..Len(cs) |-> IF cs[i] \in DOMAIN LowerC THEN LowerC[cs[i]] ELSE cs[i]], 1)
(* A file is a sequence of items: entries (type, key, fields), strings      *)
(* (name, value) and comments.  A value is a sequence of words, or the name *)
(* of a string defined before.                                             *)
StringsBefore(file, n) ==
  LET I == {i \in 1..n-1 : file[i].k = "string"} IN
  [nm \in {file[i].key : i \in I} |->
     file[CHOOSE i \in I : file[i].key = nm /\ \A j \in I : file[j].key = nm => j <= i].v]
EntryOf(file, n) ==
  LET e == file[n]  S == StringsBefore(file, n)
  IN [type |-> Lower(e.type),
      f |-> [x \in {Lower(e.fields[i].f) : i \in 1..Len(e.fields)} |->
               LET i == CHOOSE i \in 1..Len(e.fields) : Lower(e.fields[i].f) = x
               IN IF e.fields[i].ref = "" THEN e.fields[i].v ELSE S[e.fields[i].ref]]]
Entries(file) ==
  LET I == {i \in 1..Len(file) : file[i].k = "entry"} IN
  [key \in {file[i].key : i \in I} |-> EntryOf(file, CHOOSE i \in I : file[i].key = key)]

(* --- paths: the segments of a path, resolved ---------------------------- *)
RECURSIVE Resolve(_, _, _)
Resolve(done, segs, i) ==
  IF i > Len(segs) THEN done
  ELSE Resolve(CASE segs[i] \in {"", "."} -> done
                 [] segs[i] = ".." -> IF done = <<>> THEN done ELSE SubSeq(done, 1, Len(done) - 1)
                 [] OTHER -> Append(done, segs[i]), segs, i + 1)
(* a path relative to a module is relative to the directory it lies in *)
RelativeTo(module, rel, absolute) ==
  IF absolute THEN Resolve(<<>>, rel, 1)
  ELSE Resolve(SubSeq(module, 1, Len(module) - 1), rel, 1)

(* --- dates -------------------------------------------------------------- *)
RealDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(y, m)
=============================================================================
