-------------------------------- MODULE JsonDoc --------------------------------
(* JSON: which byte sequences are documents and what they denote (RFC 8259), what reading a document into a
   type has to give, and which documents denote a value that was written.

   A document denotes one of
     [j |-> "null"]   [j |-> "bool", b]   [j |-> "num", n |-> number]   [j |-> "str", c |-> codes]
     [j |-> "arr", e |-> documents]       [j |-> "obj", m |-> <<name, document>> pairs, in order]
   A string with half a surrogate pair is well formed, but it isn't a text: [j |-> "lone"]. *)
EXTENDS Data

RECURSIVE Ws(_, _)
Ws(b, i) == IF i <= Len(b) /\ b[i] \in {32, 9, 10, 13} THEN Ws(b, i + 1) ELSE i
At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
Starts(b, i, w) == i + Len(w) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(w) - 1) = w
Fail == [i |-> 0, v |-> [j |-> "bad"]]

HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Hex4(b, i) == \* the value of the four digits at i, or -1
  IF \A k \in 0..3 : HexVal(At(b, i + k)) >= 0
  THEN ((HexVal(b[i]) * 16 + HexVal(b[i + 1])) * 16 + HexVal(b[i + 2])) * 16 + HexVal(b[i + 3]) ELSE -1
Short(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1

(* the string whose contents start at i: [i |-> position after it, c |-> codes, lone |-> half a pair somewhere] *)
PString(b, i0) ==
  LET RECURSIVE P(_, _, _)
      P(i, acc, lone) ==
        LET c == At(b, i) IN
        IF c = 34 THEN [i |-> i + 1, c |-> acc, lone |-> lone]
        ELSE IF c < 32 THEN [i |-> 0, c |-> <<>>, lone |-> FALSE]
        ELSE IF c = 92 THEN
          IF At(b, i + 1) = 117 THEN
            LET u == Hex4(b, i + 2) IN
            IF u < 0 THEN [i |-> 0, c |-> <<>>, lone |-> FALSE]
            ELSE IF u \in 55296..56319 /\ At(b, i + 6) = 92 /\ At(b, i + 7) = 117 /\ Hex4(b, i + 8) \in 56320..57343
              THEN P(i + 12, Append(acc, 65536 + ((u - 55296) * 1024) + (Hex4(b, i + 8) - 56320)), lone)
            ELSE P(i + 6, Append(acc, u), lone \/ u \in 55296..57343)
          ELSE IF Short(At(b, i + 1)) < 0 THEN [i |-> 0, c |-> <<>>, lone |-> FALSE]
          ELSE P(i + 2, Append(acc, Short(b[i + 1])), lone)
        ELSE LET u == Utf8At(b, i) IN
          IF u.n = 0 THEN [i |-> 0, c |-> <<>>, lone |-> FALSE] ELSE P(i + u.n, Append(acc, u.c), lone)
  IN P(i0, <<>>, FALSE)

RECURSIVE Digits(_, _)
Digits(b, i) == IF IsDig(At(b, i)) THEN Digits(b, i + 1) ELSE i   \* the end of the digits at i
Cut(b, i, k) == [x \in 1..(k - i) |-> b[i + x - 1] - 48]
PNumber(b, i0) ==
  LET neg == b[i0] = 45
      i1 == IF neg THEN i0 + 1 ELSE i0
      i2 == Digits(b, i1)                                    \* end of the integral part
      frac == At(b, i2) = 46
      i3 == IF frac THEN Digits(b, i2 + 1) ELSE i2
      ex == At(b, i3) \in {69, 101}
      sg == ex /\ At(b, i3 + 1) \in {43, 45}
      i4 == IF ex THEN (IF sg THEN i3 + 2 ELSE i3 + 1) ELSE i3
      i5 == IF ex THEN Digits(b, i4) ELSE i3
      ed == Lead(Cut(b, i4, i5))
      ev == IF Len(ed) > 6 THEN 999999 ELSE FoldLeft(LAMBDA a, d : a * 10 + d, 0, ed)
      xe == IF ~ex THEN 0 ELSE IF At(b, i3 + 1) = 45 THEN 0 - ev ELSE ev
      ds == Cut(b, i1, i2) \o (IF frac THEN Cut(b, i2 + 1, i3) ELSE <<>>)
  IN IF i2 = i1 \/ (At(b, i1) = 48 /\ i2 > i1 + 1) \/ (frac /\ i3 = i2 + 1) \/ (ex /\ i5 = i4) THEN Fail
     ELSE [i |-> i5, v |-> [j |-> "num", n |-> Norm(neg, ds, xe - (IF frac THEN i3 - i2 - 1 ELSE 0))]]

(* the document at i, and the position after it; position 0 if there is none *)
RECURSIVE PValue(_, _), PElems(_, _, _), PMembers(_, _, _)
PValue(b, i) ==
  LET c == At(b, i) IN
  CASE c = 110 -> IF Starts(b, i, <<110, 117, 108, 108>>) THEN [i |-> i + 4, v |-> [j |-> "null"]] ELSE Fail
    [] c = 116 -> IF Starts(b, i, TextTrue) THEN [i |-> i + 4, v |-> [j |-> "bool", b |-> TRUE]] ELSE Fail
    [] c = 102 -> IF Starts(b, i, TextFalse) THEN [i |-> i + 5, v |-> [j |-> "bool", b |-> FALSE]] ELSE Fail
    [] c = 34 -> LET s == PString(b, i + 1) IN
                 IF s.i = 0 THEN Fail ELSE [i |-> s.i, v |-> IF s.lone THEN [j |-> "lone"] ELSE [j |-> "str", c |-> s.c]]
    [] c = 45 \/ IsDig(c) -> PNumber(b, i)
    [] c = 91 -> LET k == Ws(b, i + 1) IN IF At(b, k) = 93 THEN [i |-> k + 1, v |-> [j |-> "arr", e |-> <<>>]] ELSE PElems(b, k, <<>>)
    [] c = 123 -> LET k == Ws(b, i + 1) IN IF At(b, k) = 125 THEN [i |-> k + 1, v |-> [j |-> "obj", m |-> <<>>]] ELSE PMembers(b, k, <<>>)
    [] OTHER -> Fail
PElems(b, i, acc) ==
  LET p == PValue(b, i) IN
  IF p.i = 0 THEN Fail
  ELSE LET k == Ws(b, p.i)  e == Append(acc, p.v) IN
       IF At(b, k) = 44 THEN PElems(b, Ws(b, k + 1), e)
       ELSE IF At(b, k) = 93 THEN [i |-> k + 1, v |-> [j |-> "arr", e |-> e]] ELSE Fail
PMembers(b, i, acc) ==
  IF At(b, i) # 34 THEN Fail
  ELSE LET s == PString(b, i + 1)  k == IF s.i = 0 THEN 0 ELSE Ws(b, s.i) IN
    IF k = 0 \/ At(b, k) # 58 THEN Fail
    ELSE LET p == PValue(b, Ws(b, k + 1)) IN
      IF p.i = 0 THEN Fail
      ELSE LET q == Ws(b, p.i)  m == Append(acc, <<IF s.lone THEN <<-1>> ELSE s.c, p.v>>) IN
           IF At(b, q) = 44 THEN PMembers(b, Ws(b, q + 1), m)
           ELSE IF At(b, q) = 125 THEN [i |-> q + 1, v |-> [j |-> "obj", m |-> m]] ELSE Fail
Document(b) == LET p == PValue(b, Ws(b, 1)) IN IF p.i # 0 /\ Ws(b, p.i) = Len(b) + 1 THEN p.v ELSE [j |-> "bad"]

RECURSIVE HasLone(_)
HasLone(d) == CASE d.j = "lone" -> TRUE
                [] d.j = "arr" -> \E i \in 1..Len(d.e) : HasLone(d.e[i])
                [] d.j = "obj" -> \E i \in 1..Len(d.m) : d.m[i][1] = <<-1>> \/ HasLone(d.m[i][2])
                [] OTHER -> FALSE

----------------------------------------------------------------------------
(* reading *)
RECURSIVE Decode(_, _), DecodeFields(_, _)
Decode(sh, d) ==
  CASE K(sh) = "scalar" ->
         LET s == Scalar(sh) IN
         CASE s \in {"unit", "Tk"} -> IF d.j \in {"str", "num"} THEN Any_ ELSE No_
           [] d.j = "str" -> IF s = "String" THEN Ok_(Str(d.c)) ELSE Soft(FromText(sh, d.c))
           [] d.j = "bool" -> IF s = "bool" THEN Ok_(Bool(d.b)) ELSE No_
           [] d.j = "num" -> IF s \in Ints THEN ReadInt(s, d.n) ELSE IF s \in {"f32", "f64"} THEN ReadFloat(s, d.n) ELSE No_
           [] OTHER -> No_
    [] K(sh) = "option" -> IF d.j = "null" THEN Ok_(None) ELSE Map1(Decode(Shapes[sh].t, d), Some)
    [] K(sh) = "list" -> IF d.j = "arr" THEN Both([i \in 1..Len(d.e) |-> Decode(Shapes[sh].t, d.e[i])], List) ELSE No_
    [] K(sh) = "struct" -> IF d.j = "obj" THEN DecodeFields(sh, d.m) ELSE No_
    [] K(sh) = "enum" -> Any_       \* the other kinds of types are written, but not read
    [] OTHER -> Any_
DecodeFields(sh, m) ==
  LET S == Shapes[sh]
      fs == S.f
      of(i) == {k \in 1..Len(m) : m[k][1] = fs[i].key}
      unknown == {k \in 1..Len(m) : \A i \in 1..Len(fs) : m[k][1] # fs[i].key}
      \* whether a field can also be given under the name it is declared with is not specified
      unclear == \E k \in unknown : \E i \in 1..Len(fs) : m[k][1] = fs[i].dn
      field(i) ==
        IF of(i) # {} THEN Decode(fs[i].sh, m[CHOOSE k \in of(i) : TRUE][2])
        ELSE IF S.dflt THEN Ok_(WholeDefault(sh).f[i])
        ELSE IF fs[i].def # "none" THEN Ok_(DefOf(fs[i]))
        ELSE No_
      r == Both([i \in 1..Len(fs) |-> field(i)], LAMBDA vs : [t |-> "st", f |-> vs])
  IN IF unclear THEN Any_
     ELSE IF \E i \in 1..Len(fs) : Cardinality(of(i)) > 1 THEN No_
     ELSE IF S.deny /\ unknown # {} THEN No_
     ELSE IF \E k \in unknown : m[k][1] = <<-1>> \/ HasLone(m[k][2]) THEN Soft(r) ELSE r

Read(sh, b) ==
  LET d == Document(b) IN
  IF d.j = "bad" THEN No_
  ELSE LET r == Decode(sh, d) IN IF r.s \in {"ok", "may"} /\ ~InvHolds(sh, r.v) THEN No_ ELSE r

----------------------------------------------------------------------------
(* writing: does the document denote the value? *)
IntText(v) == (IF v.g THEN <<45>> ELSE <<>>) \o [i \in 1..Len(v.d) |-> v.d[i] + 48]
KeyText(k) ==
  CASE k.t = "str" -> k.c [] k.t = "int" -> IntText(k) [] k.t = "bool" -> IF k.b THEN TextTrue ELSE TextFalse [] k.t = "chr" -> <<k.u>>
RECURSIVE Denotes(_, _, _), MembersDenote(_, _, _)
MembersDenote(fs, vs, d) ==
  d.j = "obj" /\ Len(d.m) = Len(fs) /\ \A i \in 1..Len(fs) : d.m[i][1] = fs[i].key /\ Denotes(fs[i].sh, vs[i], d.m[i][2])
Denotes(sh, v, d) ==
  CASE K(sh) = "scalar" ->
         LET s == Scalar(sh) IN
         IF s = "String" THEN d = [j |-> "str", c |-> v.c]
         ELSE IF s = "bool" THEN d = [j |-> "bool", b |-> v.b]
         ELSE IF s \in Ints THEN d.j = "num" /\ Norm(v.g, v.d, 0) = d.n
         ELSE IF v.c = "fin" THEN d.j = "num" /\ Nearest(Dec(s, d.n), v) ELSE d.j = "null"
    [] K(sh) = "option" -> IF v.t = "none" THEN d.j = "null" ELSE Denotes(Shapes[sh].t, v.x, d)
    [] K(sh) = "list" -> d.j = "arr" /\ Len(d.e) = Len(v.e) /\ \A i \in 1..Len(v.e) : Denotes(Shapes[sh].t, v.e[i], d.e[i])
    [] K(sh) = "map" -> d.j = "obj" /\ Len(d.m) = Len(v.e)
         /\ \A i \in 1..Len(v.e) : \E k \in 1..Len(d.m) : d.m[k][1] = KeyText(v.e[i][1]) /\ Denotes(Shapes[sh].vt, v.e[i][2], d.m[k][2])
         /\ \A p, q \in 1..Len(d.m) : p # q => d.m[p][1] # d.m[q][1]
    [] K(sh) = "struct" -> MembersDenote(Shapes[sh].f, v.f, d)
    [] K(sh) = "enum" ->
         LET V == Shapes[sh].vs[v.i] IN
         IF Len(V.f) = 0 THEN d = [j |-> "str", c |-> V.key]
         ELSE /\ d.j = "obj" /\ Len(d.m) = 1 /\ d.m[1][1] = V.key
              /\ LET x == d.m[1][2] IN
                 IF V.kind = "struct" THEN MembersDenote(V.f, v.f, x)
                 ELSE IF Len(V.f) = 1 THEN Denotes(V.f[1].sh, v.f[1], x)
                 ELSE x.j = "arr" /\ Len(x.e) = Len(V.f) /\ \A i \in 1..Len(V.f) : Denotes(V.f[i].sh, v.f[i], x.e[i])

(* the same value, but that what is null is not told apart: an option in an option, and what isn't finite *)
RECURSIVE Plain(_, _)
Plain(sh, v) == CASE v.t = "flt" -> v.c = "fin"
                  [] v.t = "some" -> ~(v.x.t = "none") /\ Plain(Shapes[sh].t, v.x)
                  [] v.t = "list" -> \A i \in 1..Len(v.e) : Plain(Shapes[sh].t, v.e[i])
                  [] v.t = "st" -> \A i \in 1..Len(v.f) : Plain(Shapes[sh].f[i].sh, v.f[i])
                  [] OTHER -> TRUE
=============================================================================
