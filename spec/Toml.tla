-------------------------------- MODULE Toml --------------------------------
(* TOML: what reading a document into a type has to give. The grammar is somebody else's (toml_edit's); here a
   document is what it says, and TomlGen has many ways to spell it:
     [j |-> "int", g, d]   [j |-> "flt", n |-> number]   [j |-> "inf", g]   [j |-> "nan"]   [j |-> "bool", b]
     [j |-> "str", c]      [j |-> "date"]    [j |-> "arr", e]
     [j |-> "tab", m |-> <<key, document>> pairs]     [j |-> "aot", e |-> tables]    an array of tables
     [j |-> "bad"] not a document   [j |-> "open"] perhaps one *)
EXTENDS Data

I64(g, d) == DigLe(d, IF g THEN MinDigits("i64") ELSE MaxDigits("i64"))

KeyOf(m, k) == {i \in 1..Len(m) : m[i][1] = k}
IdxName(i) == Num(i - 1).d       \* the name of the i-th field of a tuple, as digits
IdxKey(i) == [k \in 1..Len(IdxName(i)) |-> IdxName(i)[k] + 48]

RECURSIVE Decode(_, _), FieldsFrom(_, _, _), VariantFrom(_, _, _)
(* the fields fs from the table with entries m, under the names key(i) *)
FieldsFrom(fs, m, keys) ==
  [i \in 1..Len(fs) |->
     LET at == KeyOf(m, keys[i]) IN
     IF at # {} THEN Decode(fs[i].sh, m[CHOOSE k \in at : TRUE][2])
     ELSE IF K(fs[i].sh) = "option" THEN Ok_(None)
     ELSE IF fs[i].def # "none" THEN Any_ ELSE No_]
Decode(sh, d) ==
  LET S == Shapes[sh] IN
  CASE K(sh) = "scalar" ->
         LET s == S.s IN
         IF s = "bool" THEN IF d.j = "bool" THEN Ok_(Bool(d.b)) ELSE No_
         ELSE IF s = "String" THEN IF d.j = "str" THEN Ok_(Str(d.c)) ELSE No_
         ELSE IF s \in Ints \ (NonZeros \cup {"u128", "i128"}) THEN
           IF d.j = "int" THEN ReadInt(s, Norm(d.g, d.d, 0))
           ELSE IF d.j = "flt" THEN IF ~Integral(d.n) /\ Len(d.n.d) <= 15 THEN No_ ELSE IF d.n.x + Len(d.n.d) > 15 \/ ~Integral(d.n) THEN Any_ ELSE Soft(ReadInt(s, d.n))
           ELSE No_
         ELSE IF s \in {"f32", "f64"} THEN
           IF d.j = "int" THEN LET n == Norm(d.g /\ d.d # <<0>>, d.d, 0) IN Ok_(Dec(s, n))
           ELSE IF d.j = "flt" THEN IF DecTooLarge("f64", d.n) THEN Any_
                                    ELSE IF s = "f64" THEN Ok_(Dec(s, d.n))
                                    ELSE IF DecTooLarge("f32", d.n) THEN No_
                                    ELSE Ok_([t |-> "dec2", g |-> d.n.g, d |-> d.n.d, x |-> d.n.x])
           ELSE IF d.j = "inf" THEN Ok_([t |-> "flt", c |-> "inf", g |-> d.g, m |-> <<0>>, e |-> 0])
           ELSE IF d.j = "nan" THEN Ok_([t |-> "flt", c |-> "nan", g |-> FALSE, m |-> <<0>>, e |-> 0])
           ELSE No_
         ELSE Any_                                \* not supported
    [] K(sh) = "option" -> Map1(Decode(S.t, d), Some)
    [] K(sh) = "list" -> IF d.j = "arr" THEN Both([i \in 1..Len(d.e) |-> Decode(S.t, d.e[i])], List)
                         ELSE IF d.j = "aot" THEN Soft(Both([i \in 1..Len(d.e) |-> Decode(S.t, d.e[i])], List)) ELSE No_
    [] K(sh) = "map" ->
         IF d.j # "tab" THEN No_
         ELSE LET r == Both([i \in 1..Len(d.m) |-> Decode(S.vt, d.m[i][2])], LAMBDA vs : Map([i \in 1..Len(d.m) |-> <<Str(d.m[i][1]), vs[i]>>])) IN
              IF S.kt = ShIdx("String") THEN r ELSE Any_
    [] K(sh) = "struct" ->
         LET mk(vs) == [t |-> "st", f |-> vs]  fs == S.f IN
         IF d.j = "tab" THEN
           LET r == Both(FieldsFrom(fs, d.m, [i \in 1..Len(fs) |-> fs[i].dn]), mk)
           \* whether other rules for fields are known is not specified
           IN IF \E i \in 1..Len(fs) : fs[i].dn # fs[i].key \/ (S.dflt /\ KeyOf(d.m, fs[i].dn) = {}) THEN Any_
              ELSE IF S.deny /\ \E k \in 1..Len(d.m) : \A i \in 1..Len(fs) : d.m[k][1] # fs[i].dn THEN Any_
              ELSE r
         ELSE IF d.j = "aot" THEN No_
         ELSE IF Len(fs) = 1 THEN Soft(Both(<<Decode(fs[1].sh, d)>>, mk))     \* the one field may stand for the struct
         ELSE IF S.sk \in {"tuple", "tuplestruct"} /\ d.j = "arr" THEN Any_
         ELSE No_
    [] K(sh) = "enum" ->
         LET named(k) == {i \in 1..Len(S.vs) : S.vs[i].key = k} IN
         IF d.j = "str" THEN
           IF named(d.c) = {} THEN No_
           ELSE LET i == CHOOSE i \in named(d.c) : TRUE IN IF S.vs[i].kind = "unit" THEN Ok_([t |-> "en", i |-> i, f |-> <<>>])
                                                          ELSE IF \A k \in 1..Len(S.vs[i].f) : K(S.vs[i].f[k].sh) = "option" THEN Any_ ELSE No_
         ELSE IF d.j = "tab" /\ Len(d.m) = 1 /\ named(d.m[1][1]) # {} THEN VariantFrom(sh, CHOOSE i \in named(d.m[1][1]) : TRUE, d.m[1][2])
         ELSE No_
    [] OTHER -> Any_
VariantFrom(sh, i, d) ==
  LET V == Shapes[sh].vs[i]
      mk(vs) == [t |-> "en", i |-> i, f |-> vs]
      one == Both(<<Decode(V.f[1].sh, d)>>, mk)
  IN IF V.kind = "unit" THEN May_([t |-> "en", i |-> i, f |-> <<>>])      \* with data it has no place for
     ELSE IF V.kind = "struct" THEN
       IF d.j = "tab" THEN Both(FieldsFrom(V.f, d.m, [k \in 1..Len(V.f) |-> V.f[k].dn]), mk)
       ELSE IF Len(V.f) = 1 THEN Soft(one) ELSE IF \E k \in 1..Len(V.f) : Decode(V.f[k].sh, d).s = "no" THEN No_ ELSE Any_
     ELSE
       IF d.j = "tab" /\ \E k \in 1..Len(V.f) : KeyOf(d.m, IdxKey(k)) # {} THEN
            LET r == Both(FieldsFrom(V.f, d.m, [k \in 1..Len(V.f) |-> IdxKey(k)]), mk) IN
            IF Len(V.f) = 1 /\ K(V.f[1].sh) \in {"map", "option"} THEN Any_ ELSE r
       ELSE IF d.j \in {"tab", "aot"} THEN Any_
       ELSE IF Len(V.f) = 1 THEN one
       ELSE IF \E k \in 1..Len(V.f) : Decode(V.f[k].sh, d).s = "no" THEN No_ ELSE Any_

(* integers are 64 bits wide, whatever they are read into *)
RECURSIVE Holds64(_)
Holds64(d) == CASE d.j = "int" -> I64(d.g, d.d)
                [] d.j \in {"arr", "aot"} -> \A i \in 1..Len(d.e) : Holds64(d.e[i])
                [] d.j = "tab" -> \A i \in 1..Len(d.m) : Holds64(d.m[i][2])
                [] OTHER -> TRUE
RECURSIVE Once(_)     \* no key twice
Once(d) == CASE d.j \in {"arr", "aot"} -> \A i \in 1..Len(d.e) : Once(d.e[i])
             [] d.j = "tab" -> Cardinality({d.m[i][1] : i \in 1..Len(d.m)}) = Len(d.m) /\ \A i \in 1..Len(d.m) : Once(d.m[i][2])
             [] OTHER -> TRUE
Read(sh, d) ==
  IF d.j = "open" THEN Any_
  ELSE IF d.j = "bad" \/ ~Holds64(d) \/ ~Once(d) THEN No_
  ELSE LET r == Decode(sh, d) IN IF r.s \in {"ok", "may"} /\ ~InvHolds(sh, r.v) THEN No_ ELSE r
=============================================================================
