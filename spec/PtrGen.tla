------------------------------- MODULE PtrGen -------------------------------
(* Sequences of operations on pointers to a type, each with what has to be observed: all of a length, or random ones. *)
EXTENDS ValueGen, Ptr, Json
CONSTANTS Types, N, Steps, All
VARIABLES sh, st, hist

RECURSIVE Walk(_, _, _, _)
Walk(s, t, k, h) ==
  IF k = 0 THEN h
  ELSE LET ops == Ops(t)
           op == RandomElement(ops)
           v == IF op.o \in {"new", "newo"} THEN GenV(s, 2) ELSE [t |-> "unit"]
       IN Walk(s, After(t, op, v), k - 1, Append(h, (IF op.o \in {"new", "newo"} THEN [x |-> v] ELSE <<>>) @@ Observed(t, op, v)))
Line(s, h) == PrintT(ToJson([k |-> "rc", sh |-> s, n |-> N, h |-> h]))
RCase(m) == \E t \in {RandomElement(Types)} : \E s \in {ShIdx(t)} : Line(s, Walk(s, Ptr0(N), Steps, <<>>))

(* all sequences: the history is part of the state *)
Init == IF All THEN sh \in {ShIdx(t) : t \in Types} /\ st = Ptr0(N) /\ hist = <<>>
        ELSE sh = 0 /\ st = 0 /\ hist = <<>>
Next == IF All
        THEN /\ Len(hist) < Steps
             /\ \E op \in Ops(st) :
                  /\ st' = After(st, op, Canon(sh))
                  /\ hist' = Append(hist, (IF op.o \in {"new", "newo"} THEN [x |-> Canon(sh)] ELSE <<>>) @@ Observed(st, op, Canon(sh)))
             /\ sh' = sh
             /\ (Len(hist') = Steps => Line(sh, hist'))
        ELSE /\ sh' = sh + 1 /\ RCase(sh') /\ UNCHANGED <<st, hist>>
=============================================================================
