------------------------------ MODULE CollGen ------------------------------
(* Sequences of operations on collections of a type, each with what has to be observed: all of a length, or random ones. *)
EXTENDS ValueGen, Coll, Json
CONSTANTS Types, N, Steps, All
VARIABLES sh, st, hist

(* (every collection of the universe, for no types) *)
Every == SelectSeq([i \in DOMAIN Shapes |-> i], LAMBDA i : Collection(i))
Line(s, h) == PrintT(ToJson([k |-> "coll", sh |-> s, n |-> N, h |-> h]))
KeyFor(s, t, op) ==
  LET ks == IF op.i = 0 THEN <<>> ELSE [i \in DOMAIN t.at[op.i].e |-> t.at[op.i].e[i][1]] IN
  IF NeedsK(op.o) THEN (IF ks # <<>> /\ Pct(50) THEN Pick(ks) ELSE GenV(Shapes[s].kt, 2)) ELSE No
RECURSIVE Go(_, _, _, _)
Go(s, t, k, h) ==
  IF k = 0 THEN h
  ELSE LET ops == Steps_(s, t)
           kinds == Pick(<<{"push", "insert", "set", "unset"}, {"push", "insert", "set"}, {"get", "look", "iter", "len"}, {"clone", "init", "none", "some", "default"}, {"drop"}>>)
           some == {op \in ops : op.o \in kinds}
           op == RandomElement(IF some = {} THEN ops ELSE some)
           r == StepC(s, t, op, IF NeedsX(op.o) THEN GenV(ElemOf(s), 2) ELSE No, KeyFor(s, t, op), Pick(<<0, 0, 1, 2, 3, 7, 100>>))
       IN Go(s, r.st, k - 1, Append(h, r.ob))
Case_(m) == \E s \in {IF Types = {} THEN Pick(Every) ELSE ShIdx(RandomElement(Types))} : Line(s, Go(s, Coll0(N), Steps, <<>>))

(* all sequences, with one element and two keys *)
Keys_(s) == IF K(s) = "map" THEN {Canon(Shapes[s].kt), IF Scalar(Shapes[s].kt) = "String" THEN Str(<<>>) ELSE IF Scalar(Shapes[s].kt) = "u8" THEN Num(7) ELSE Canon(Shapes[s].kt)} ELSE {}
Args_(s, op) == (IF NeedsX(op.o) THEN {Canon(ElemOf(s))} ELSE {No}) \X (IF NeedsK(op.o) THEN Keys_(s) ELSE {No}) \X (IF op.o \in {"get", "iter"} THEN {0, 1} ELSE {0})
Init == IF All THEN sh \in {ShIdx(t) : t \in Types} /\ st = Coll0(N) /\ hist = <<>>
        ELSE sh = 0 /\ st = 0 /\ hist = <<>>
Next == IF All
        THEN /\ Len(hist) < Steps
             /\ \E op \in Steps_(sh, st) : \E a \in Args_(sh, op) :
                  \E r \in {StepC(sh, st, op, a[1], a[2], a[3])} : st' = r.st /\ hist' = Append(hist, r.ob)
             /\ sh' = sh
             /\ (Len(hist') = Steps => Line(sh, hist'))
        ELSE /\ sh' = sh + 1 /\ Case_(sh') /\ UNCHANGED <<st, hist>>
ApartHolds == All => Apart(sh, st)
KeysHold == All => KeysApart(sh, st)
=============================================================================
