------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation kit.                                                   *)
(*                                                                         *)
(* A driver executes the real code and records one JSON object per call:   *)
(* its arguments, its outcome and the observable state afterwards.  A      *)
(* Trace_X module extends this kit and a design module X and defines       *)
(*                                                                         *)
(*    TInit       the initial model state                                  *)
(*    TStep(s, e) the model state after event e, computed with the         *)
(*                operators of X (or re-synchronised to the observation    *)
(*                after a disagreement, so that the rest of the trace is   *)
(*                still judged)                                            *)
(*    TJudge(s,e) the clauses of the properties that event e is subject    *)
(*                to, each with its verdict                                *)
(*                                                                         *)
(* The verdict is total: every event is consumed, every failing clause is  *)
(* reported by name with its position in the trace, and the number of      *)
(* times each clause was evaluated is reported, so that a clause that was  *)
(* never exercised is noticed.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Big

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* A clause: its name (property id first), verdict and an explanation.     *)
(* A check of one property evaluates the clauses of that property only.    *)
Only == IF "ONLY" \in DOMAIN IOEnv THEN IOEnv.ONLY ELSE ""
Wanted(c) == SPrefix(Only, c) \/ SPrefix("ANY.", c)
Ck(c, ok, info) == IF ~Wanted(c) THEN [c |-> "", ok |-> TRUE, info |-> ""]
                   ELSE IF ok THEN [c |-> c, ok |-> TRUE, info |-> ""]
                   ELSE [c |-> c, ok |-> FALSE, info |-> ToString(info)]
If(cond, cs) == IF cond THEN cs ELSE <<>>

RECURSIVE Failed(_, _, _)
Failed(cs, i, pos) ==
  IF i > Len(cs) THEN <<>>
  ELSE IF cs[i].ok THEN Failed(cs, i + 1, pos)
  ELSE <<[l |-> pos, c |-> cs[i].c, info |-> cs[i].info]>> \o Failed(cs, i + 1, pos)

RECURSIVE Tally(_, _, _)
Tally(cnt, cs, i) ==
  IF i > Len(cs) THEN cnt
  ELSE IF cs[i].c = "" THEN Tally(cnt, cs, i + 1)
  ELSE LET k == cs[i].c IN
       Tally(IF k \in DOMAIN cnt THEN [cnt EXCEPT ![k] = @ + 1]
                                 ELSE (k :> 1) @@ cnt, cs, i + 1)

(* tolerance for quantities computed in floating point *)
Tol == "1e-9"
Near(a, b) == DClose(a, b, Tol, "0")
NearS(a, b, scale) == DClose(a, b, Tol, scale)
(* the same for what is left of something: its rounding is that of the whole *)
NearW(a, b, whole) == DIsNum(a) /\ DIsNum(b) /\ DLe(DAbs(DSub(a, b)),
                        DAdd(DMul(Tol, DAbs(b)), DMul("1e-12", DAbs(whole))))
(* Does a text (lines of words) say what is expected?  Numerals may be       *)
(* written in any way, and rounded.                                        *)
WordIs(w, x, rel) == IF DIsNum(x) THEN DIsNum(w) /\ DClose(w, x, rel, "1e-290") ELSE w = x
LineIs(l, x, rel) == Len(l) = Len(x) /\ \A i \in 1..Len(x) : WordIs(l[i], x[i], rel)
TextIs(t, x, rel) == Len(t) = Len(x) /\ \A i \in 1..Len(x) : LineIs(t[i], x[i], rel)
SeqNear(s, t, scale) ==
  /\ Len(s) = Len(t)
  /\ \A i \in 1..Len(s) : NearS(s[i], t[i], scale)
=============================================================================
