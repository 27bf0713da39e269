----------------------------- MODULE PutNumJudge -----------------------------
(* Judges where the numbers ended up: at the root, and in every field of the structs of numbers. *)
EXTENDS PutNum, Json, IOUtils
CONSTANTS Chains
VARIABLES pos
Records == ndJsonDeserialize("outcomes.ndjson")
Outs(r) == <<r.o.root>> \o r.o.fields
Verdict(r) ==
  LET bad == {i \in 1..Len(Outs(r)) : ~Allowed(r.c.sh, r.c.x, Outs(r)[i])} IN
  IF r.o.can # Numeric(r.c.sh) THEN [ok |-> FALSE, s |-> "ok", kind |-> "can"]
  ELSE IF bad # {} THEN [ok |-> FALSE, s |-> "ok", kind |-> IF \A i \in bad : Outs(r)[i].r = 0 THEN "refuse" ELSE "value"]
  ELSE [ok |-> TRUE, s |-> "ok"]
Init == pos \in 1..Chains
Next == /\ pos <= Len(Records)
        /\ PrintT(ToJson([i |-> pos] @@ Verdict(Records[pos])))
        /\ pos' = pos + Chains
=============================================================================
