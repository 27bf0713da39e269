------------------------------ MODULE ShapeGen ------------------------------
(* Every type of the universe. *)
EXTENDS Universe, Integers, Sequences, TLC, Json
VARIABLE sh
Init == sh \in DOMAIN Shapes
Next == PrintT(ToJson([k |-> "shape", sh |-> sh])) /\ UNCHANGED sh
=============================================================================
