----------------------------- MODULE PrettyJudge -----------------------------
(* Judges what was printed. *)
EXTENDS Pretty, Json, IOUtils
CONSTANTS Chains
VARIABLES pos
Records == ndJsonDeserialize("outcomes.ndjson")
Bad(k) == [ok |-> FALSE, s |-> "ok", kind |-> k]
Verdict(r) ==
  IF r.o.r = 0 THEN Bad("panic")
  ELSE LET ch == Print_(r.c.sh, r.o.v, [ind |-> r.c.ind, max |-> r.c.max]) IN
    IF r.o.t # r.o.t2 \/ r.o.c # r.o.c2 THEN Bad("leak")
    ELSE IF ~ShowsDense(r.o.t, ch) THEN Bad("shown")
    ELSE IF ~Shows(r.o.t, ch) THEN Bad("layout")
    ELSE IF ~Colored(r.o.t, r.o.c) THEN Bad("color")
    ELSE [ok |-> TRUE, s |-> "ok"]
Init == pos \in 1..Chains
Next == /\ pos <= Len(Records)
        /\ PrintT(ToJson([i |-> pos] @@ Verdict(Records[pos])))
        /\ pos' = pos + Chains
=============================================================================
