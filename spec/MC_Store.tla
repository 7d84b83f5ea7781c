------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* Design check of Store, and generator of histories of writing, reading   *)
(* and changing objects for replay against the implementation.             *)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS Depth, Slots, Files, Acts
VARIABLES st, hist
vars == <<st, hist>>

Ev(op, s, t, f, a) == [op |-> op, s |-> s, t |-> t, f |-> f, a |-> a]
Init == /\ st = Create(Start, "p", "K")
        /\ hist = <<Ev("new", "p", "", "", "")>>
Step(new, e) == st' = new /\ hist' = Append(hist, e)
Has(s) == s \in DOMAIN st.slot
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E s \in Slots : ~Has(s) /\ Step(Create(st, s, "K"), Ev("new", s, "", "", ""))
     \/ \E s \in Slots, a \in Acts : Has(s) /\ Step(Do(st, s, a), Ev("do", s, "", "", a))
     \/ \E s, t \in Slots : Has(s) /\ Has(t) /\ Step(Join(st, s, t, "j"), Ev("join", s, t, "", "j"))
     \/ \E s \in Slots, f \in Files : Has(s) /\ Step(Write(st, s, f), Ev("write", s, "", f, ""))
     \/ \E s \in Slots, f \in Files : f \in DOMAIN st.file /\ Step(Read(st, f, s), Ev("read", s, "", f, ""))
View == st
Spec == Init /\ [][Next]_vars
Emit == PrintT(<<"@@", ToJson(hist')>>)

(* --- properties of the design ------------------------------------------ *)
(* what is written is what is read *)
RoundTrip == \A s \in DOMAIN st.slot : \A f \in {"f", "g"} :
  LET w == Write(st, s, f)
  IN /\ Read(w, f, s) = w
     /\ \A t \in Slots : Read(w, f, t).slot[t] = st.slot[s]
(* a file keeps its content whatever happens to the object *)
Snapshot == \A s \in DOMAIN st.slot : \A a \in Acts :
  LET w == Write(st, s, "f") IN Do(w, s, a).file = w.file
(* writing to one file leaves the others *)
OtherFiles == [][\A f \in DOMAIN st.file : st'.file[f] # st.file[f]
                   => hist'[Len(hist')].op = "write" /\ hist'[Len(hist')].f = f]_vars
(* only the object an operation is applied to changes *)
OtherSlots == [][\A s \in DOMAIN st.slot : st'.slot[s] # st.slot[s]
                   => hist'[Len(hist')].s = s /\ hist'[Len(hist')].op # "write"]_vars
(* history only grows unless the slot is read into *)
Grows == [][\A s \in DOMAIN st.slot :
     \/ hist'[Len(hist')].op = "read"
     \/ /\ Len(st'.slot[s].h) >= Len(st.slot[s].h)
        /\ SubSeq(st'.slot[s].h, 1, Len(st.slot[s].h)) = st.slot[s].h]_vars
=============================================================================
