----------------------------- MODULE ViewJudge -----------------------------
EXTENDS View, Json, IOUtils
CONSTANTS Chains
VARIABLES pos
Records == ndJsonDeserialize("outcomes.ndjson")
Verdict(r) == LET w == Wrong_(r.c, r.o) IN [ok |-> w = {}, s |-> "ok", kind |-> "walk", wrong |-> SetToSeq(w)]
Init == pos \in 1..Chains
Next == /\ pos <= Len(Records)
        /\ PrintT(ToJson([i |-> pos] @@ Verdict(Records[pos])))
        /\ pos' = pos + Chains
=============================================================================
