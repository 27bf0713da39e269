------------------------------ MODULE CanonGen ------------------------------
(* One value of every type. *)
EXTENDS Values, Json
VARIABLE done
Init == done = FALSE
Next == ~done /\ PrintT(ToJson([vs |-> [j \in DOMAIN Shapes |-> Canon(j)]])) /\ done' = TRUE
=============================================================================
