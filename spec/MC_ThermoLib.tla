---------------------------- MODULE MC_ThermoLib ----------------------------
(* The library of thermochemical data: directories hold one file per        *)
(* compound, loading a directory makes the library exactly its contents,    *)
(* writing a compound replaces that compound's file only.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Forms, Dirs
VARIABLES dir, lib, n, hist
vars == <<dir, lib, n, hist>>
(* contents: formula -> version of its data, 0 = absent *)
Start == [a |-> [f \in Forms |-> IF f = "FeO" THEN 1 ELSE 2], b |-> [f \in Forms |-> IF f = "FeO" THEN 3 ELSE 0],
          c |-> [f \in Forms |-> 0]]
Init == dir = [d \in Dirs |-> Start[d]] /\ lib = [f \in Forms |-> 0] /\ n = 0 /\ hist = <<>>
Do(o) == n < MaxOps /\ n' = n + 1 /\ hist' = Append(hist, o)
Load(d) == Do([op |-> "load", d |-> d]) /\ lib' = dir[d] /\ UNCHANGED dir
Write(f, d) == lib[f] # 0 /\ Do([op |-> "write", f |-> f, d |-> d]) /\ dir' = [dir EXCEPT ![d][f] = lib[f]] /\ UNCHANGED lib
Next == \E d \in Dirs : Load(d) \/ \E f \in Forms : Write(f, d)
Spec == Init /\ [][Next]_vars
View == <<dir, lib, n>>
Emit == PrintT(<<"@@", ToJson(hist')>>)
(* data never mixes: what is in the library under a formula is data of it *)
Typed == \A f \in Forms : lib[f] \in (IF f = "FeO" THEN {0, 1, 3} ELSE {0, 2})
(* loading is reading: after a load the library is that directory; a write *)
(* changes one file and nothing in memory                                  *)
Acts == [][ (\E d \in Dirs : hist' = Append(hist, [op |-> "load", d |-> d]) /\ lib' = dir[d] /\ dir' = dir)
          \/ (lib' = lib /\ Cardinality({<<d, f>> \in Dirs \X Forms : dir'[d][f] # dir[d][f]}) <= 1) ]_vars
=============================================================================
