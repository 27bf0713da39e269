------------------------------- MODULE JsonGen -------------------------------
(* JSON documents to read, and values to write, at random: one case a step.

   valid   documents denoting a value of the type, spelled in every way; numbers in and out of range
   fields  documents for structs with members missing, unknown, twice, in any order
   garbled documents with a few bytes changed, documents of other types, loose tokens
   write   values *)
EXTENDS ValueGen, JsonDoc, Json

CONSTANTS Mode, Types, Deep    \* Deep: how deep values are
VARIABLES n

----------------------------------------------------------------------------
(* documents, before they are spelled: as in JsonDoc, but numbers are [j |-> "raw", b |-> bytes] *)
DigitCodes(d) == [i \in 1..Len(d) |-> d[i] + 48]
ExpText(x) ==  \* e, E, with or without sign and leading zeros
  LET a == IF x < 0 THEN 0 - x ELSE x IN
  <<Pick(<<69, 101>>)>> \o (IF x < 0 THEN <<45>> ELSE IF Pct(30) THEN <<43>> ELSE <<>>) \o Zeros48(IF Pct(20) THEN RandomElement(1..3) ELSE 0) \o DigitCodes(Num(a).d)
(* a number (-1)^g * d * 10^x, in any spelling *)
NumText(g, d, x) ==
  LET l == Len(d)
      c == RandomElement(1..10)
      sg == IF g THEN <<45>> ELSE <<>>
      k == RandomElement(1..l)
      more == RandomElement(1..6)
      whole == DigitCodes(d)
      expo(e) == IF e = 0 /\ Pct(60) THEN <<>> ELSE ExpText(e)
      \* the point after k digits
      shift(e) == LET i == DigitCodes(SubSeq(d, 1, k))  f == DigitCodes(SubSeq(d, k + 1, l))
                  IN (IF k > 1 /\ d[1] = 0 THEN <<48>> ELSE i) \o (IF f = <<>> THEN IF Pct(30) THEN <<46, 48>> ELSE <<>> ELSE <<46>> \o f) \o expo(e)
  IN IF x \in 0..6 /\ c <= 5 THEN sg \o whole \o Zeros48(IF d = <<0>> THEN 0 ELSE x)
     ELSE IF c = 6 THEN sg \o whole \o Zeros48(more) \o expo(x - more)
     ELSE IF c = 7 THEN sg \o whole \o <<46>> \o Zeros48(more) \o expo(x)
     ELSE IF x < 0 /\ x > 0 - 12 /\ c <= 9 THEN   \* plain decimal
       LET z == Zeros(12) \o d  p == Len(z) + x  i == Lead(SubSeq(z, 1, p)) IN sg \o DigitCodes(i) \o <<46>> \o DigitCodes(SubSeq(z, p + 1, Len(z)))
     ELSE IF d = <<0>> THEN sg \o <<48>> \o expo(x) ELSE sg \o shift(x + l - k)

RExp(x) == LET c == RandomElement(1..10) IN IF c <= 6 THEN RandomElement((0 - 8)..8) ELSE IF c <= 8 THEN RandomElement((0 - 50)..50) ELSE RandomElement((0 - 345)..312)
(* the exact value of a float, or the middle between it and the next, as a decimal number *)
Exact(v, half) ==
  LET m0 == FromDigits(v.m)
      m == IF half THEN Add(MulSmall(m0, 2), <<1>>) ELSE m0
      e == IF half THEN v.e - 1 ELSE v.e
  IN IF e >= 0 THEN [d |-> ToDigits(Mul(m, Pow2(e))), x |-> 0] ELSE [d |-> ToDigits(Mul(m, Pow5(0 - e))), x |-> e]
FloatText(s) ==
  LET c == RandomElement(1..20) IN
  IF c <= 2 THEN LET v == RFloat(s)  x == Exact(v, Pct(50)) IN NumText(v.g, x.d, x.x)
  ELSE LET d == Lead(RDigits(RandomElement(1..(IF c <= 14 THEN 7 ELSE 22)))) IN NumText(Pct(40), d, RExp(s))
(* integers that may not fit *)
IntDoc(s, v) ==
  LET c == RandomElement(1..60)
      up == IF v.g THEN MinDigits(s) ELSE MaxDigits(s)
      over == ToDigits(Add(FromDigits(up), <<1>>))
  IN IF c = 1 THEN NumText(v.g, over, 0)
     ELSE IF c = 2 THEN NumText(v.g, Lead(RDigits(Len(up) + RandomElement(0..2))), 0)
     ELSE IF c = 3 THEN NumText(v.g, v.d, 0 - RandomElement(1..3))
     ELSE IF c = 4 THEN NumText(~v.g, v.d, 0)
     ELSE IF c = 5 THEN NumText(v.g, v.d, RandomElement(1..25))
     ELSE NumText(v.g, v.d, 0)

RECURSIVE ToDoc(_, _), DocList(_, _), DocFields(_, _)
DocList(sh, e) == IF e = <<>> THEN <<>> ELSE <<ToDoc(sh, Head(e))>> \o DocList(sh, Tail(e))
DocFields(fs, vs) == IF fs = <<>> THEN <<>> ELSE << <<Head(fs).key, ToDoc(Head(fs).sh, Head(vs))>> >> \o DocFields(Tail(fs), Tail(vs))
ToDoc(sh, v) ==
  CASE v.t = "int" -> [j |-> "raw", b |-> IntDoc(Scalar(sh), v)]
    [] v.t = "flt" -> [j |-> "raw", b |-> FloatText(Scalar(sh))]
    [] v.t = "bool" -> [j |-> "bool", b |-> v.b]
    [] v.t = "str" -> [j |-> "str", c |-> v.c]
    [] v.t = "chr" -> [j |-> "str", c |-> <<v.u>>]
    [] v.t = "none" -> [j |-> "null"]
    [] v.t = "some" -> ToDoc(Shapes[sh].t, v.x)
    [] v.t \in {"list", "arr"} -> [j |-> "arr", e |-> DocList(Shapes[sh].t, v.e)]
    [] v.t = "st" -> [j |-> "obj", m |-> DocFields(Shapes[sh].f, v.f)]
    [] v.t = "en" -> [j |-> "str", c |-> Shapes[sh].vs[v.i].key]
    [] v.t = "map" -> [j |-> "obj", m |-> <<>>]
    [] OTHER -> [j |-> "null"]

(* any document *)
RECURSIVE AnyDoc(_), AnyDocs(_, _), AnyMembers(_, _)
AnyDocs(k, deep) == IF k = 0 THEN <<>> ELSE Append(AnyDocs(k - 1, deep), AnyDoc(deep))
AnyMembers(k, deep) == IF k = 0 THEN <<>> ELSE Append(AnyMembers(k - 1, deep), <<RText(k), AnyDoc(deep)>>)
AnyDoc(deep) ==
  LET c == RandomElement(1..(IF deep = 0 THEN 6 ELSE 10)) IN
  CASE c = 1 -> [j |-> "null"] [] c = 2 -> [j |-> "bool", b |-> Pct(50)] [] c = 3 -> [j |-> "str", c |-> RText(c)]
    [] c = 4 -> [j |-> "raw", b |-> FloatText("f64")] [] c = 5 -> [j |-> "raw", b |-> NumText(Pct(30), RNat(MaxDigits("u64")), 0)] [] c = 6 -> [j |-> "lone"]
    [] c \in {7, 8} -> [j |-> "arr", e |-> AnyDocs(RandomElement(0..3), deep - 1)]
    [] OTHER -> [j |-> "obj", m |-> AnyMembers(RandomElement(0..3), deep - 1)]

----------------------------------------------------------------------------
(* spelling *)
RWs(x) == IF Pct(75) THEN <<>> ELSE LET k == RandomElement(1..3) IN Tab(k, LAMBDA i : Pick(<<32, 32, 9, 10, 13>>))
HexDigit(v) == IF v < 10 THEN 48 + v ELSE IF Pct(50) THEN 55 + v ELSE 87 + v
Hex(u) == <<92, 117, HexDigit((u \div 4096) % 16), HexDigit((u \div 256) % 16), HexDigit((u \div 16) % 16), HexDigit(u % 16)>>
SpellCode(c, plain) ==
  LET short == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 8 -> 98 [] c = 12 -> 102 [] c = 10 -> 110 [] c = 13 -> 114 [] c = 9 -> 116 [] OTHER -> 0
      hex == IF c < 65536 THEN Hex(c) ELSE Hex(55296 + ((c - 65536) \div 1024)) \o Hex(56320 + ((c - 65536) % 1024))
      must == c < 32 \/ c \in {34, 92}
  IN IF short # 0 /\ (IF must THEN Pct(70) ELSE Pct(40)) THEN <<92, short>>
     ELSE IF must \/ (~plain /\ Pct(30)) THEN hex ELSE Utf8(c)
Spell(cs) == LET plain == Pct(60) IN <<34>> \o FoldLeft(LAMBDA acc, c : acc \o SpellCode(c, plain), <<>>, cs) \o <<34>>
LoneText(x) == <<34, 97>> \o Hex(RandomElement(55296..57343)) \o (IF Pct(30) THEN Hex(RandomElement(55296..56319)) ELSE <<>>) \o <<34>>
RECURSIVE Render(_), RenderMember(_)
RenderMember(m) == RWs(m) \o (IF m[1] = <<-1>> THEN LoneText(m) ELSE Spell(m[1])) \o RWs(m) \o <<58>> \o RWs(m) \o Render(m[2]) \o RWs(m)
RenderSeq(s, f(_)) == FoldLeft(LAMBDA acc, x : (IF acc = <<>> THEN acc ELSE Append(acc, 44)) \o f(x), <<>>, s)
Render(d) ==
  CASE d.j = "null" -> <<110, 117, 108, 108>>
    [] d.j = "bool" -> IF d.b THEN TextTrue ELSE TextFalse
    [] d.j = "raw" -> d.b
    [] d.j = "str" -> Spell(d.c)
    [] d.j = "lone" -> LoneText(d)
    [] d.j = "arr" -> IF d.e = <<>> THEN <<91>> \o RWs(d) \o <<93>> ELSE <<91>> \o RenderSeq(d.e, LAMBDA x : RWs(x) \o Render(x) \o RWs(x)) \o <<93>>
    [] d.j = "obj" -> IF d.m = <<>> THEN <<123>> \o RWs(d) \o <<125>> ELSE <<123>> \o RenderSeq(d.m, RenderMember) \o <<125>>
Whole(d) == RWs(d) \o Render(d) \o RWs(d)

----------------------------------------------------------------------------
(* objects whose members were shuffled everywhere *)
RECURSIVE Mixed(_), MixedAll(_)
MixedAll(s) == IF s = <<>> THEN <<>> ELSE <<Mixed(Head(s))>> \o MixedAll(Tail(s))
Mixed(d) ==
  CASE d.j = "arr" -> [d EXCEPT !.e = MixedAll(@)]
    [] d.j = "obj" -> LET vs == MixedAll([i \in 1..Len(d.m) |-> d.m[i][2]])
                          ms == Tab(Len(d.m), LAMBDA i : <<d.m[i][1], vs[i]>>)
                      IN [d EXCEPT !.m = IF Pct(60) THEN Shuffle(ms) ELSE ms]
    [] OTHER -> d

(* names that look like some field's *)
NearName(S) ==
  LET f == IF S.f = <<>> THEN [key |-> <<120>>, dn |-> <<120>>] ELSE Pick(S.f)  k == f.key  c == RandomElement(1..8) IN
  CASE c = 1 -> Append(k, Pick(Codes)) [] c = 2 -> <<>> [] c = 3 -> RText(c)
    [] c = 4 -> IF k[1] \in 97..122 THEN [k EXCEPT ![1] = @ - 32] ELSE <<95>> \o k
    [] c = 5 -> <<Pick(Codes)>> \o k [] c = 6 -> SubSeq(k, 1, Len(k) - 1) [] c = 7 -> k \o k [] OTHER -> f.dn
Insert(s, x) == LET k == RandomElement(0..Len(s)) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Subset_(_, _)
Subset_(s, keep) == IF s = <<>> THEN <<>> ELSE (IF Pct(keep) THEN <<Head(s)>> ELSE <<>>) \o Subset_(Tail(s), keep)
RECURSIVE Fiddle(_, _), FiddleAll(_, _), FiddleMembers(_, _), Unknowns(_, _, _)
Unknowns(S, ms, k) ==
  IF k = 0 THEN ms
  ELSE Unknowns(S, Insert(ms, <<IF Pct(5) THEN <<-1>> ELSE NearName(S), AnyDoc(2)>>), k - 1)
FiddleAll(sh, e) == IF e = <<>> THEN <<>> ELSE <<Fiddle(sh, Head(e))>> \o FiddleAll(sh, Tail(e))
FiddleMembers(fs, ms) == IF ms = <<>> THEN <<>> ELSE << <<Head(ms)[1], Fiddle(Head(fs).sh, Head(ms)[2])>> >> \o FiddleMembers(Tail(fs), Tail(ms))
Fiddle(sh, d) ==   \* d is a document for the type
  CASE K(sh) = "option" -> IF d.j = "null" THEN d ELSE Fiddle(Shapes[sh].t, d)
    [] K(sh) = "list" /\ d.j = "arr" -> [d EXCEPT !.e = FiddleAll(Shapes[sh].t, @)]
    [] K(sh) = "struct" /\ d.j = "obj" ->
         LET S == Shapes[sh]
             inner == FiddleMembers(S.f, d.m)
             kept == Subset_(inner, IF S.dflt \/ (\E i \in 1..Len(S.f) : S.f[i].def # "none") THEN Pick(<<50, 75, 100>>) ELSE Pick(<<90, 100, 100, 100>>))
             more == IF Pct(45) THEN Unknowns(S, kept, RandomElement(1..2)) ELSE kept
             twice == IF Pct(12) /\ inner # <<>> THEN Insert(more, Pick(inner)) ELSE more
         IN [d EXCEPT !.m = IF Pct(60) THEN Shuffle(twice) ELSE twice]
    [] OTHER -> d

(* loose tokens *)
Tokens == << <<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<34, 97, 34>>, <<34, 98, 34>>, <<49>>, <<45, 48, 46, 53>>, TextTrue, TextFalse, <<110, 117, 108, 108>>, <<32>>, <<34>>,
             <<34, 92>>, <<92, 117>>, <<48, 49>>, <<49, 46>>, <<46, 53>>, <<49, 101>>, <<43, 49>>, <<45>>, <<116, 114, 117>>, <<47, 42>>, <<11>>, <<194, 160>>, <<239, 187, 191>>, <<34, 9, 34>>, <<34, 255, 34>>,
             <<34, 92, 120, 34>>, <<78, 97, 78>>, <<34, 237, 160, 128, 34>>, <<34, 92, 117, 48, 48, 103, 48, 34>>>>
Soup(x) == FoldLeft(LAMBDA acc, i : acc \o Pick(Tokens), <<>>, [i \in 1..RandomElement(1..9) |-> i])
RECURSIVE GarbleN(_, _)
GarbleN(b, k) == IF k = 0 THEN b ELSE GarbleN(Garble1(b), k - 1)

(* what each type's fields have to be told apart from: another type *)
RType(x) == ShIdx(RandomElement(Types))
DocFor(sh) == ToDoc(sh, GenV(sh, Deep))
(* a document with one of its parts replaced by something else *)
RECURSIVE Misfit(_)
Misfit(d) ==
  CASE d.j = "arr" /\ d.e # <<>> /\ Pct(80) -> LET k == RandomElement(1..Len(d.e)) IN [d EXCEPT !.e[k] = Misfit(@)]
    [] d.j = "obj" /\ d.m # <<>> /\ Pct(85) -> LET k == RandomElement(1..Len(d.m)) IN [d EXCEPT !.m[k][2] = Misfit(@)]
    [] OTHER -> AnyDoc(1)

Case(m) ==
  LET sh == RType(m) IN
  CASE Mode = "valid" -> [k |-> "read", sh |-> sh, b |-> Whole(Mixed(DocFor(sh)))]
    [] Mode = "fields" -> [k |-> "read", sh |-> sh, b |-> Whole(Fiddle(sh, DocFor(sh)))]
    [] Mode = "garbled" ->
         LET c == RandomElement(1..10) IN
         [k |-> "read", sh |-> sh,
          b |-> IF c <= 5 THEN GarbleN(Whole(Mixed(DocFor(sh))), RandomElement(1..2))
                ELSE IF c <= 7 THEN Whole(Mixed(Misfit(DocFor(sh))))
                ELSE IF c = 8 THEN Whole(DocFor(RType(c)))
                ELSE IF c = 9 THEN Soup(c) ELSE LET w == Whole(DocFor(sh)) IN SubSeq(w, 1, RandomElement(0..Len(w)))]
    [] Mode = "write" -> [k |-> "write", sh |-> sh, v |-> GenV(sh, Deep)]

Init == n = 0
Next == n' = n + 1 /\ PrintT(ToJson(Case(n)))
=============================================================================
