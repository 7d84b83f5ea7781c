------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Objects that can be written to a file and read back (auxi.core.objects). *)
(*                                                                         *)
(* What an object is, is what was done to it: its kind and the operations   *)
(* applied since it was made.  A file holds what the object written to it   *)
(* was at that moment.  Slots are the variables of the program.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Obj(kind, h) == [k |-> kind, h |-> h]
NoObj == Obj("", <<>>)
Set(f, a, b) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN b ELSE f[x]]

Start == [slot |-> <<>>, file |-> <<>>]
Create(st, s, kind) == [st EXCEPT !.slot = Set(@, s, Obj(kind, <<>>))]
Do(st, s, o) == [st EXCEPT !.slot[s].h = Append(@, <<o>>)]
(* an operation that another object takes part in *)
Join(st, s, t, o) == [st EXCEPT !.slot[s].h = Append(@, <<o, st.slot[t]>>)]
Write(st, s, f) == [st EXCEPT !.file = Set(@, f, st.slot[s])]
Read(st, f, s) == [st EXCEPT !.slot = Set(@, s, st.file[f])]
=============================================================================
