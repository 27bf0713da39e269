-------------------------------- MODULE Yaml --------------------------------
(* YAML: what reading a document into a type has to give. As for TOML, the grammar is somebody else's
   (yaml_rust2's), and a document is what it says; YamlGen spells it:
     [j |-> "int", g, d]   [j |-> "real", n |-> number]   [j |-> "bool", b]   [j |-> "null"]
     [j |-> "str", c]      [j |-> "arr", e]      [j |-> "tab", m |-> <<key, document>> pairs; keys are documents]
     [j |-> "bad"] not one document    [j |-> "open"] perhaps one *)
EXTENDS Data

IdxName(i) == LET d == Num(i - 1).d IN [k \in 1..Len(d) |-> d[k] + 48]     \* the name of the i-th field of a tuple
NameOf(sh, i) == Shapes[sh].f[i].dn

RECURSIVE Decode(_, _)
Decode(sh, d) ==
  LET S == Shapes[sh] IN
  IF K(sh) = "scalar" THEN
    IF S.s = "String" THEN IF d.j = "str" THEN Ok_(Str(d.c)) ELSE No_
    ELSE IF S.s = "u64" THEN
      CASE d.j = "int" -> ReadInt("u64", Norm(d.g, d.d, 0))
        [] d.j = "real" -> IF IsZero(d.n) THEN Soft(ReadInt("u64", d.n)) ELSE IF d.n.g THEN No_ ELSE Soft(ReadInt("u64", d.n))
        [] d.j = "str" -> LET n == NumberOf(d.c) IN                         \* a number in quotes may be taken for one
                          IF IsNo(n) THEN No_ ELSE IF n.g THEN No_ ELSE Soft(ReadInt("u64", n))
        [] d.j = "bool" -> Any_
        [] OTHER -> No_
    ELSE No_                                                                \* not supported
  ELSE IF K(sh) = "struct" THEN
    IF d.j # "tab" THEN No_
    ELSE LET fs == S.f
             at(i) == {k \in 1..Len(d.m) : d.m[k][1].j = "str" /\ d.m[k][1].c = fs[i].dn}
             keys == {d.m[k][1] : k \in 1..Len(d.m)}
             odd == \E i \in 1..Len(fs) : fs[i].dn # fs[i].key \/ (at(i) = {} /\ (fs[i].def # "none" \/ S.dflt))   \* other rules for fields are not supported
         IN IF Cardinality(keys) # Len(d.m) THEN No_                         \* a key twice
            ELSE IF odd THEN Any_
            ELSE IF \E k \in 1..Len(d.m) : \A i \in 1..Len(fs) : k \notin at(i) THEN No_     \* nothing by that name
            ELSE Both([i \in 1..Len(fs) |-> IF at(i) = {} THEN No_ ELSE Decode(fs[i].sh, d.m[CHOOSE k \in at(i) : TRUE][2])], LAMBDA vs : [t |-> "st", f |-> vs])
  ELSE No_
RECURSIVE Once(_)     \* no key twice, anywhere
Once(d) == CASE d.j = "arr" -> \A i \in 1..Len(d.e) : Once(d.e[i])
             [] d.j = "tab" -> Cardinality({d.m[i][1] : i \in 1..Len(d.m)}) = Len(d.m) /\ \A i \in 1..Len(d.m) : Once(d.m[i][2])
             [] OTHER -> TRUE
Read(sh, d) ==
  IF d.j = "open" THEN Any_
  ELSE IF d.j = "bad" \/ ~Once(d) THEN No_
  ELSE LET r == Decode(sh, d) IN IF r.s \in {"ok", "may"} /\ ~InvHolds(sh, r.v) THEN No_ ELSE r
=============================================================================
