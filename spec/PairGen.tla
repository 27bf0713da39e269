------------------------------- MODULE PairGen -------------------------------
(* Every type, with those it is to be confused with: all, or those that look like it (same kind and
   contents, or same size as a scalar) and some others. *)
EXTENDS ValueGen, Json
CONSTANTS All
VARIABLES sh, done

(* the builder takes structs of up to 64 fields *)
Wide(i) == K(i) = "struct" /\ Len(Shapes[i].f) > 64
Alike(i, j) == K(i) = K(j) /\ (K(i) = "scalar" => Shapes[i].sz = Shapes[j].sz) /\ (K(i) \in {"struct", "enum"} => Shapes[i].tn = Shapes[j].tn \/ (K(i) = "struct" /\ Len(Shapes[i].f) = Len(Shapes[j].f)))
Few(i) == SelectSeq([j \in DOMAIN Shapes |-> j], LAMBDA j : ~Wide(j) /\ (All \/ Alike(i, j) \/ (i * 7 + j) % 16 = 0))
Init == sh \in {i \in DOMAIN Shapes : ~Wide(i)} /\ done = FALSE
Next == ~done /\ PrintT(ToJson([k |-> "pair", sh |-> sh, few |-> Few(sh)])) /\ done' = TRUE /\ UNCHANGED sh
=============================================================================
