------------------------------- MODULE ArgsEx -------------------------------
(* The machine of Args, run on every list of up to Longest arguments. Checked on the way: what was given by name is
   what was given last (or refused), and positions are filled from the front. *)
EXTENDS Args, Json
CONSTANTS Types, Longest
VARIABLES sh, a, st
vars == <<sh, a, st>>
ArgTexts(ty) ==
  {<<45, 45>> \o Shapes[ShIdx(ty)].f[i].dn : i \in 1..Len(Shapes[ShIdx(ty)].f)}
  \cup {<<53>>, <<45, 45>>, <<120>>, TextTrue, <<45, 49>>, <<45, 45, 122>>, <<>>}
Init == sh \in {ShIdx(t) : t \in Types} /\ a = <<>> /\ st = Start(sh)
Next == Len(a) < Longest /\ \E c \in ArgTexts(Shapes[sh].ty) : a' = Append(a, c) /\ st' = Take(sh, st, c) /\ sh' = sh
Same_ == Read(sh, a) = IF End(sh, st).s \in {"ok", "may"} THEN End(sh, st) ELSE [s |-> End(sh, st).s]
(* positional fields are given in order, unless by name *)
InOrder == st.s \in {"ok", "may"} =>
  \A i, j \in 1..Len(st.v) : (i < j /\ Shapes[sh].f[i].pos /\ IsNo(st.v[i]) /\ Shapes[sh].f[j].pos /\ ~IsNo(st.v[j]))
     => \E k \in DOMAIN a : a[k] = <<45, 45>> \o Shapes[sh].f[j].dn
Emit == PrintT(ToJson([k |-> "read", sh |-> sh, a |-> a]))
=============================================================================
