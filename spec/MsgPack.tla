------------------------------- MODULE MsgPack -------------------------------
(* MessagePack: which byte sequences are objects and what they denote (the format's specification), what
   reading one into a type has to give, and which objects denote a value that was written.

   An object denotes one of
     [j |-> "nil"]   [j |-> "bool", b]   [j |-> "int", n |-> number]   [j |-> "str", c |-> codes]
     [j |-> "lone"] a string that isn't UTF-8     [j |-> "flt"]   [j |-> "bin"]   [j |-> "ext"]
     [j |-> "arr", e |-> objects]    [j |-> "map", m |-> <<key, object>> pairs, in order] *)
EXTENDS Data

Fail == [i |-> 0, v |-> [j |-> "bad"]]
(* the bytes at i, k of them; a length read from them, where what is longer than any input is just long *)
Has(b, i, k) == k <= Len(b) - i + 1
Bytes(b, i, k) == SubSeq(b, i, i + k - 1)
Length(b, i, k) == LET x == Bytes(b, i, k) IN
  IF k = 4 /\ x[1] >= 64 THEN 1073741824 ELSE FoldLeft(LAMBDA acc, y : acc * 256 + y, 0, x)
Natural(b, i, k) == Norm(FALSE, ToDigits(FromBytes(Bytes(b, i, k))), 0)
Integer(b, i, k) ==
  IF b[i] < 128 THEN Natural(b, i, k) ELSE Norm(TRUE, ToDigits(Sub(Pow2(8 * k), FromBytes(Bytes(b, i, k)))), 0)

(* the object at i, and the position after it; position 0 if there is none *)
RECURSIVE PObject(_, _), PObjects(_, _, _, _), PPairs(_, _, _, _)
PObject(b, i) ==
  IF i > Len(b) THEN Fail
  ELSE LET p == b[i]
           of(k, v) == IF Has(b, i + 1, k) THEN [i |-> i + 1 + k, v |-> v] ELSE Fail
           text(at, n) == IF ~Has(b, at, n) THEN Fail
                          ELSE LET t == Decoded(Bytes(b, at, n)) IN [i |-> at + n, v |-> IF t.ok THEN [j |-> "str", c |-> t.c] ELSE [j |-> "lone"]]
           blob(at, n, what) == IF Has(b, at, n) THEN [i |-> at + n, v |-> [j |-> what]] ELSE Fail
           \* with a length of k bytes
           sized(k, f(_, _)) == IF Has(b, i + 1, k) THEN f(i + 1 + k, Length(b, i + 1, k)) ELSE Fail
           nat(k) == IF Has(b, i + 1, k) THEN [i |-> i + 1 + k, v |-> [j |-> "int", n |-> Natural(b, i + 1, k)]] ELSE Fail
           int(k) == IF Has(b, i + 1, k) THEN [i |-> i + 1 + k, v |-> [j |-> "int", n |-> Integer(b, i + 1, k)]] ELSE Fail
       IN CASE p <= 127 -> of(0, [j |-> "int", n |-> Norm(FALSE, Num(p).d, 0)])
            [] p \in 128..143 -> PPairs(b, i + 1, p - 128, <<>>)
            [] p \in 144..159 -> PObjects(b, i + 1, p - 144, <<>>)
            [] p \in 160..191 -> text(i + 1, p - 160)
            [] p = 192 -> of(0, [j |-> "nil"])
            [] p = 193 -> Fail
            [] p \in {194, 195} -> of(0, [j |-> "bool", b |-> p = 195])
            [] p = 196 -> sized(1, LAMBDA at, n : blob(at, n, "bin"))
            [] p = 197 -> sized(2, LAMBDA at, n : blob(at, n, "bin"))
            [] p = 198 -> sized(4, LAMBDA at, n : blob(at, n, "bin"))
            [] p = 199 -> sized(1, LAMBDA at, n : blob(at, n + 1, "ext"))
            [] p = 200 -> sized(2, LAMBDA at, n : blob(at, n + 1, "ext"))
            [] p = 201 -> sized(4, LAMBDA at, n : blob(at, n + 1, "ext"))
            [] p = 202 -> of(4, [j |-> "flt"])
            [] p = 203 -> of(8, [j |-> "flt"])
            [] p = 204 -> nat(1) [] p = 205 -> nat(2) [] p = 206 -> nat(4) [] p = 207 -> nat(8)
            [] p = 208 -> int(1) [] p = 209 -> int(2) [] p = 210 -> int(4) [] p = 211 -> int(8)
            [] p = 212 -> blob(i + 1, 2, "ext") [] p = 213 -> blob(i + 1, 3, "ext") [] p = 214 -> blob(i + 1, 5, "ext")
            [] p = 215 -> blob(i + 1, 9, "ext") [] p = 216 -> blob(i + 1, 17, "ext")
            [] p = 217 -> sized(1, text) [] p = 218 -> sized(2, text) [] p = 219 -> sized(4, text)
            [] p = 220 -> sized(2, LAMBDA at, n : PObjects(b, at, n, <<>>))
            [] p = 221 -> sized(4, LAMBDA at, n : PObjects(b, at, n, <<>>))
            [] p = 222 -> sized(2, LAMBDA at, n : PPairs(b, at, n, <<>>))
            [] p = 223 -> sized(4, LAMBDA at, n : PPairs(b, at, n, <<>>))
            [] OTHER -> of(0, [j |-> "int", n |-> Norm(TRUE, Num(256 - p).d, 0)])
PObjects(b, i, n, acc) ==
  IF n = 0 THEN [i |-> i, v |-> [j |-> "arr", e |-> acc]]
  ELSE IF n > Len(b) THEN Fail
  ELSE LET o == PObject(b, i) IN IF o.i = 0 THEN Fail ELSE PObjects(b, o.i, n - 1, Append(acc, o.v))
PPairs(b, i, n, acc) ==
  IF n = 0 THEN [i |-> i, v |-> [j |-> "map", m |-> acc]]
  ELSE IF n > Len(b) THEN Fail
  ELSE LET k == PObject(b, i) IN
       IF k.i = 0 THEN Fail
       ELSE LET o == PObject(b, k.i) IN IF o.i = 0 THEN Fail ELSE PPairs(b, o.i, n - 1, Append(acc, <<k.v, o.v>>))

(* the one object the bytes consist of *)
Document(b) == LET o == PObject(b, 1) IN IF o.i = Len(b) + 1 THEN o.v ELSE [j |-> "bad"]

----------------------------------------------------------------------------
(* what there is no notation for here yet: not read, and not written *)
Supported == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "String", "bool"}
RECURSIVE Reads(_)
Reads(sh) == CASE K(sh) = "scalar" -> Scalar(sh) \in Supported
               [] K(sh) = "struct" -> \A i \in 1..Len(Shapes[sh].f) : Reads(Shapes[sh].f[i].sh)
               [] OTHER -> FALSE

RECURSIVE Decode(_, _)
Decode(sh, d) ==
  CASE K(sh) = "scalar" ->
         LET s == Scalar(sh) IN
         CASE s = "String" -> IF d.j = "str" THEN Ok_(Str(d.c)) ELSE No_
           [] s = "bool" -> IF d.j = "bool" THEN Ok_(Bool(d.b)) ELSE No_
           [] s \in Supported -> IF d.j = "int" THEN ReadInt(s, d.n) ELSE No_
           [] OTHER -> Any_
    [] K(sh) = "struct" ->
         IF d.j # "map" THEN No_
         ELSE LET fs == Shapes[sh].f
                  of(i) == {k \in 1..Len(d.m) : d.m[k][1] = [j |-> "str", c |-> fs[i].dn]}
                  r == Both([i \in 1..Len(fs) |->
                              IF of(i) # {} THEN Decode(fs[i].sh, d.m[CHOOSE k \in of(i) : TRUE][2])
                              ELSE IF Shapes[sh].dflt \/ fs[i].def # "none" \/ K(fs[i].sh) = "option" THEN Any_ ELSE No_], LAMBDA vs : [t |-> "st", f |-> vs])
              IN IF \E i \in 1..Len(fs) : Cardinality(of(i)) > 1 THEN No_
                 \* whether other rules for fields are known is not specified
                 ELSE IF Shapes[sh].deny \/ \E i \in 1..Len(fs) : fs[i].dn # fs[i].key THEN Any_
                 ELSE IF \E k \in 1..Len(d.m) : d.m[k][1].j # "str" THEN Soft(r) ELSE r
    [] OTHER -> Any_
Read(sh, b) ==
  LET o == PObject(b, 1) IN
  IF o.i = 0 THEN No_
  ELSE LET r == Decode(sh, o.v) IN
       IF r.s \in {"ok", "may"} /\ ~InvHolds(sh, r.v) THEN No_
       ELSE IF o.i # Len(b) + 1 THEN Soft(r) ELSE r      \* whether something may follow the object is not specified

RECURSIVE Denotes(_, _, _)
Denotes(sh, v, d) ==
  CASE K(sh) = "scalar" ->
         LET s == Scalar(sh) IN
         IF s = "String" THEN d = [j |-> "str", c |-> v.c]
         ELSE IF s = "bool" THEN d = [j |-> "bool", b |-> v.b]
         ELSE d.j = "int" /\ d.n = Norm(v.g, v.d, 0)
    [] K(sh) = "struct" ->
         LET fs == Shapes[sh].f IN
         /\ d.j = "map" /\ Len(d.m) = Len(fs)
         /\ \A i \in 1..Len(fs) : \E k \in 1..Len(d.m) : d.m[k][1] = [j |-> "str", c |-> fs[i].dn] /\ Denotes(fs[i].sh, v.f[i], d.m[k][2])
=============================================================================
