------------------------------ MODULE TomlJudge ------------------------------
(* Judges what the implementation did with the cases (see JsonJudge). *)
EXTENDS Toml, Json, IOUtils
CONSTANTS Chains
VARIABLES pos
Records == ndJsonDeserialize("outcomes.ndjson")
Out(r) == IF r.o.r = 1 THEN [r |-> 1, v |-> r.o.v] ELSE [r |-> 0]
Verdict(r) ==
  LET e == Read(r.c.sh, r.c.d) IN
  IF Agrees(e, Out(r)) THEN [ok |-> TRUE, s |-> e.s] ELSE [ok |-> FALSE, s |-> e.s, kind |-> IF e.s = "no" THEN "accept" ELSE IF r.o.r = 0 THEN "refuse" ELSE "value"]
Init == pos \in 1..Chains
Next == /\ pos <= Len(Records)
        /\ PrintT(ToJson([i |-> pos] @@ Verdict(Records[pos])))
        /\ pos' = pos + Chains
=============================================================================
