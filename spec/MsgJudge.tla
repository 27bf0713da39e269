------------------------------ MODULE MsgJudge ------------------------------
(* Judges what the implementation did with the cases (see JsonJudge). *)
EXTENDS MsgPack, Json, IOUtils
CONSTANTS Chains
VARIABLES pos
Records == ndJsonDeserialize("outcomes.ndjson")
Out(r) == IF r.o.r = 1 THEN [r |-> 1, v |-> r.o.v] ELSE [r |-> 0]
Verdict(r) ==
  CASE r.c.k = "read" ->
         LET e == Read(r.c.sh, r.c.b) IN
         IF Agrees(e, Out(r)) THEN [ok |-> TRUE, s |-> e.s] ELSE [ok |-> FALSE, s |-> e.s, kind |-> IF e.s = "no" THEN "accept" ELSE IF r.o.r = 0 THEN "refuse" ELSE "value"]
    [] r.c.k = "deep" ->
         LET e == Read(r.c.sh, r.c.small) IN
         IF e.s \in {"any", "may"} \/ (e.s = "ok") = (r.o.r = 1) THEN [ok |-> TRUE, s |-> e.s] ELSE [ok |-> FALSE, s |-> e.s, kind |-> IF e.s = "no" THEN "accept" ELSE "refuse"]
    [] r.c.k = "write" ->
         LET d == Document(r.o.t) IN
         IF ~Denotes(r.c.sh, r.c.v, d) THEN [ok |-> FALSE, s |-> d.j, kind |-> "denotes"]
         ELSE IF r.c.back /\ (IF InvHolds(r.c.sh, r.c.v) THEN ~(r.o.r = 1 /\ r.c.v = r.o.v /\ r.o.t = r.o.t2) ELSE r.o.r = 1)
              THEN [ok |-> FALSE, s |-> d.j, kind |-> "back"]
         ELSE [ok |-> TRUE, s |-> d.j]

Init == pos \in 1..Chains
Next == /\ pos <= Len(Records)
        /\ PrintT(ToJson([i |-> pos] @@ Verdict(Records[pos])))
        /\ pos' = pos + Chains
=============================================================================
