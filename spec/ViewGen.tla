------------------------------- MODULE ViewGen -------------------------------
(* Values to be walked, names to ask for, and keys to look up. *)
EXTENDS ValueGen, Json
CONSTANTS Types, Deep
VARIABLES n

(* all names in the types of a value, declared or given, and the keys of its maps *)
RECURSIVE NamesIn(_, _), KeysIn(_, _)
FNames(fs) == UNION {{fs[i].dn, fs[i].key} : i \in DOMAIN fs}
NamesIn(sh, v) ==
  LET S == Shapes[sh] IN
  CASE K(sh) = "struct" -> FNames(S.f) \cup UNION {NamesIn(S.f[i].sh, v.f[i]) : i \in DOMAIN S.f}
    [] K(sh) = "enum" -> {S.vs[i].key : i \in DOMAIN S.vs} \cup UNION {FNames(S.vs[i].f) : i \in DOMAIN S.vs} \cup UNION {NamesIn(S.vs[v.i].f[i].sh, v.f[i]) : i \in DOMAIN v.f}
    [] K(sh) \in {"list", "slice", "array"} -> UNION {NamesIn(S.t, v.e[i]) : i \in DOMAIN v.e}
    [] K(sh) = "map" -> UNION {NamesIn(S.kt, v.e[i][1]) \cup NamesIn(S.vt, v.e[i][2]) : i \in DOMAIN v.e}
    [] K(sh) = "option" -> IF v.t = "none" THEN {} ELSE NamesIn(S.t, v.x)
    [] K(sh) = "arc" -> NamesIn(S.t, v.x)
    [] OTHER -> {}
(* <<key type, key>>, and <<key type>> for every map *)
KeysIn(sh, v) ==
  LET S == Shapes[sh]  over(m, f(_)) == Concat([i \in 1..m |-> f(i)]) IN
  CASE K(sh) = "struct" -> over(Len(S.f), LAMBDA i : KeysIn(S.f[i].sh, v.f[i]))
    [] K(sh) = "enum" -> over(Len(v.f), LAMBDA i : KeysIn(S.vs[v.i].f[i].sh, v.f[i]))
    [] K(sh) \in {"list", "slice", "array"} -> over(Len(v.e), LAMBDA i : KeysIn(S.t, v.e[i]))
    [] K(sh) = "map" -> << <<S.kt>> >> \o over(Len(v.e), LAMBDA i : << <<S.kt, v.e[i][1]>> >> \o KeysIn(S.vt, v.e[i][2]))
    [] K(sh) = "option" -> IF v.t = "none" THEN <<>> ELSE KeysIn(S.t, v.x)
    [] K(sh) = "arc" -> KeysIn(S.t, v.x)
    [] OTHER -> <<>>
Some_(s, k) == LET q == Shuffle(s) IN SubSeq(q, 1, IF Len(q) < k THEN Len(q) ELSE k)
OtherTypes == <<ShIdx("u8"), ShIdx("i8"), ShIdx("u16"), ShIdx("bool"), ShIdx("String"), ShIdx("KeyS"), ShIdx("Str"), ShIdx("i32"), ShIdx("unit")>>
RType(x) == ShIdx(RandomElement(Types))
(* nearly that name: longer, shorter, or in other letters *)
Flip(c) == IF c \in 97..122 THEN c - 32 ELSE IF c \in 65..90 THEN c + 32 ELSE c
NearName(s) ==
  LET c == RandomElement(1..4) IN
  IF c = 1 \/ s = <<>> THEN Append(s, 95) ELSE IF c = 2 THEN SubSeq(s, 1, Len(s) - 1)
  ELSE IF c = 3 THEN [i \in DOMAIN s |-> Flip(s[i])] ELSE <<Flip(s[1])>> \o SubSeq(s, 2, Len(s))
Case(m) ==
  LET sh == RType(m)
      v == GenV(sh, Deep)
      names == Some_(SetToSeq(NamesIn(sh, v)), 10)
      ks == KeysIn(sh, v)
      types == {ks[i][1] : i \in DOMAIN ks}
      have(t) == LET q == SelectSeq(ks, LAMBDA k : k[1] = t /\ Len(k) = 2) IN [i \in DOMAIN q |-> q[i][2]]
      group(t) == [sh |-> t, e |-> Some_(have(t), 4) \o Tab(2, LAMBDA i : GenV(t, 1))]
      ts == SetToSeq(types)
      other == Pick(OtherTypes)
      all == IF ts = <<>> \/ other \in types \/ Pct(50) THEN ts ELSE Append(ts, other)
  IN [k |-> "walk", sh |-> sh, v |-> v, names |-> names \o << <<>>, IF names = <<>> THEN <<48>> ELSE NearName(names[1]), RText(m)>>,
      keys |-> Tab(Len(all), LAMBDA i : group(all[i]))]
Init == n = 0
Next == n' = n + 1 /\ PrintT(ToJson(Case(n)))
=============================================================================
