----------------------------- MODULE ShapeJudge -----------------------------
EXTENDS Shape, Json, IOUtils
CONSTANTS Chains
VARIABLES pos
Records == ndJsonDeserialize("outcomes.ndjson")
Verdict(r) == LET w == Wrong(r.c.sh, r.o) IN [ok |-> w = {}, s |-> "ok", kind |-> "shape", wrong |-> SetToSeq(w)]
Init == pos \in 1..Chains
Next == /\ pos <= Len(Records)
        /\ PrintT(ToJson([i |-> pos] @@ Verdict(Records[pos])))
        /\ pos' = pos + Chains
=============================================================================
