------------------------------ MODULE PrettyGen ------------------------------
(* Values to print, with settings; v2 differs from v in what is sensitive only. *)
EXTENDS ValueGen, Json
CONSTANTS Types, Deep
VARIABLES n

RECURSIVE Other(_, _, _)
Fields_(fs, f, dp) == Tab(Len(fs), LAMBDA i : IF fs[i].sens THEN GenV(fs[i].sh, dp) ELSE Other(fs[i].sh, f[i], dp))
Other(sh, v, dp) ==
  LET S == Shapes[sh] IN
  CASE K(sh) = "struct" -> [v EXCEPT !.f = Fields_(S.f, v.f, dp)]
    [] K(sh) = "enum" -> [v EXCEPT !.f = Fields_(S.vs[v.i].f, v.f, dp)]
    [] K(sh) \in {"list", "array"} -> [v EXCEPT !.e = Tab(Len(v.e), LAMBDA i : Other(S.t, v.e[i], dp))]
    [] K(sh) = "map" -> [v EXCEPT !.e = Tab(Len(v.e), LAMBDA i : <<v.e[i][1], Other(S.vt, v.e[i][2], dp)>>)]
    [] K(sh) = "option" -> IF v.t = "some" THEN [v EXCEPT !.x = Other(S.t, v.x, dp)] ELSE v
    [] K(sh) = "arc" -> [v EXCEPT !.x = Other(S.t, v.x, dp)]
    [] OTHER -> v
(* long byte strings now and then *)
Long(x) == List(Tab(RandomElement(14..50), LAMBDA i : Num(RandomElement(0..255))))
RType(x) == ShIdx(RandomElement(Types))
Case(m) ==
  LET sh == RType(m)
      v == IF Shapes[sh].ty = "Vec<u8>" /\ Pct(70) THEN Long(m) ELSE GenV(sh, Deep)
      w == IF Shapes[sh].ty = "Bytes" /\ Pct(50) THEN [v EXCEPT !.f[1] = Long(m), !.f[2] = IF Pct(50) THEN Some(Long(m)) ELSE @] ELSE v
  IN [k |-> "print", sh |-> sh, v |-> w, v2 |-> Other(sh, w, Deep), ind |-> IF Pct(40) THEN 2 ELSE RandomElement(0..9), max |-> IF Pct(60) THEN 0 - 1 ELSE RandomElement(0..5)]
Init == n = 0
Next == n' = n + 1 /\ PrintT(ToJson(Case(n)))
=============================================================================
