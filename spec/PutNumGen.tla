------------------------------ MODULE PutNumGen ------------------------------
(* Floats around every boundary of every type: 2^k + d * 2^(k - p), the values just around them and halves, of
   either sign, zeros, infinities, subnormals; for every scalar type, and in every position. One state for each
   type, position and k. *)
EXTENDS PutNum, Json
CONSTANTS Types, Ks, Ps
VARIABLES st

RECURSIVE OddOf(_, _)
OddOf(m, e) == IF m = <<>> THEN [m |-> <<0>>, e |-> 0]
               ELSE IF m[1] % 2 = 1 THEN [m |-> ToDigits(m), e |-> e]
               ELSE OddOf(DivSmall(m, 2).q, e + 1)
Fin(g, m, e) == LET o == OddOf(m, e) IN [t |-> "flt", c |-> "fin", g |-> g, m |-> o.m, e |-> o.e]
Near(k) ==
  UNION { { Fin(g, Pow2(p), k - p), Fin(g, Pred(Pow2(p)), k - p), Fin(g, Add(Pow2(p), <<1>>), k - p), Fin(g, Pred(Pred(Pow2(p))), k - p) } : g \in BOOLEAN, p \in Ps }
Special == { Fin(g, <<>>, 0) : g \in BOOLEAN } \cup { [t |-> "flt", c |-> "inf", g |-> g, m |-> <<0>>, e |-> 0] : g \in BOOLEAN }
  \cup { [t |-> "flt", c |-> "nan", g |-> FALSE, m |-> <<0>>, e |-> 0] }
  \cup { Fin(g, Pred(Pow2(53)), 971) : g \in BOOLEAN } \cup { Fin(g, <<1>>, 0 - 1074) : g \in BOOLEAN }
  \cup { Fin(g, <<1>>, 0 - k) : g \in BOOLEAN, k \in 1..160 } \cup { Fin(g, <<n>>, 0) : g \in BOOLEAN, n \in 1..300 }
  \* halves between neighbouring f32s, and just off them
  \cup { Fin(g, Add(Mul(Add(Pow2(24), <<n>>), Pow2(28)), d), e - 28) : g \in BOOLEAN, n \in {1, 2, 3, 4}, d \in {<<>>, <<1>>, Pow2(27), Add(Pow2(27), <<1>>), Pred(Pow2(27))}, e \in {0 - 149, 0 - 20, 0, 40, 104} }
  \cup { Fin(g, Add(Mul(<<n>>, Pow2(30)), d), 0 - 179) : g \in BOOLEAN, n \in {0, 1, 2, 3, 5}, d \in {<<1>>, Pow2(29), Add(Pow2(29), <<1>>), Pred(Pow2(29))} }
Cases(sh, k) == LET xs == IF k < 0 THEN Special ELSE Near(k) IN { [k |-> "num", sh |-> sh, x |-> x] : x \in xs }

Init == st \in { <<ShIdx(t), k>> : t \in Types, k \in Ks \cup {0 - 1} }
Next == /\ st # <<>>
        /\ \A c \in Cases(st[1], st[2]) : PrintT(ToJson(c))
        /\ st' = <<>>
=============================================================================
