-------------------------------- MODULE Pair --------------------------------
(* Every type against every type: whatever asks whether a value is of a type says yes for its own only. *)
EXTENDS View

Only(i, few) == IF \E k \in DOMAIN few : few[k] = i THEN <<i>> ELSE <<>>
WrongPair(c, o) ==
  LET i == c.sh IN
  UNION {Say(o[k] = <<i>>, "shapes: " \o k) : k \in {"eq", "is_shape", "is_type", "assert", "id"}}
  \cup Say(o.get = <<i>>, "reading")
  \cup Say(o.put = SelectSeq(c.few, LAMBDA j : j = i \/ (K(i) = "option" /\ j = Shapes[i].t)), "putting")   \* what an option contains makes an option
  \cup Say(o.take = IF InvHolds(i, Canon(i)) THEN Only(i, c.few) ELSE <<>>, "taking") \cup Say(o.idt = Only(i, c.few), "identity of another type")
  \cup Say(\A k \in DOMAIN o.cmp : o.cmp[k] = i, "comparing")
  \cup Say(o.sc = ScalarName(i), "scalar type")
  \cup Say(o.ids = <<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>, "identity")
=============================================================================
