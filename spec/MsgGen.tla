------------------------------- MODULE MsgGen -------------------------------
(* MessagePack objects to read, and values to write, at random: one case a step (see JsonGen). *)
EXTENDS ValueGen, MsgPack, Json

CONSTANTS Mode, Types, Deep
VARIABLES n

(* objects, before they are encoded: as in MsgPack, but integers are [j |-> "int", g, d] and there are raw bytes *)
U(k) == ToDigits(Pred(Pow2(8 * k)))
I(k) == ToDigits(Pred(Pow2((8 * k) - 1)))
IntWays(g, d) ==
  LET nz == d # <<0>>
      m == FromDigits(d)
      neg(k) == Cmp(m, Pow2((8 * k) - 1)) <= 0
      twos(k) == IF g THEN ToBytes(Sub(Pow2(8 * k), m), k) ELSE ToBytes(m, k)
      fits(k) == IF g THEN neg(k) ELSE DigLe(d, I(k))
      one(c, x) == IF c THEN <<x>> ELSE <<>>
      small == IF Len(d) <= 3 THEN FoldLeft(LAMBDA a, x : a * 10 + x, 0, d) ELSE 999
  IN one(~g /\ small <= 127, <<small>>) \o one(g /\ nz /\ small <= 32, <<256 - small>>)
     \o one(~g /\ DigLe(d, U(1)), <<204>> \o ToBytes(m, 1)) \o one(~g /\ DigLe(d, U(2)), <<205>> \o ToBytes(m, 2))
     \o one(~g /\ DigLe(d, U(4)), <<206>> \o ToBytes(m, 4)) \o one(~g /\ DigLe(d, U(8)), <<207>> \o ToBytes(m, 8))
     \o one(fits(1), <<208>> \o twos(1)) \o one(fits(2), <<209>> \o twos(2)) \o one(fits(4), <<210>> \o twos(4)) \o one(fits(8), <<211>> \o twos(8))
Be(x, k) == IF k = 1 THEN <<x>> ELSE IF k = 2 THEN <<x \div 256, x % 256>> ELSE <<0, x \div 65536, (x \div 256) % 256, x % 256>>
Sized(x, small, p1, p2, p4) ==   \* the prefix with a length; 0 where there is none
  LET ways == (IF x <= small[2] /\ small[1] > 0 THEN << <<small[1] + x>> >> ELSE <<>>)
              \o (IF x <= 255 /\ p1 > 0 THEN << <<p1>> \o Be(x, 1) >> ELSE <<>>) \o (IF x <= 65535 THEN << <<p2>> \o Be(x, 2) >> ELSE <<>>) \o << <<p4>> \o Be(x, 4) >>
  IN IF Pct(50) THEN ways[1] ELSE Pick(ways)
StrBytes(b) == Sized(Len(b), <<160, 31>>, 217, 218, 219) \o b
RECURSIVE Enc(_)
EncAll(s) == FoldLeft(LAMBDA acc, x : acc \o Enc(x), <<>>, s)
Enc(o) ==
  CASE o.j = "nil" -> <<192>>
    [] o.j = "bool" -> <<IF o.b THEN 195 ELSE 194>>
    [] o.j = "int" -> LET w == IntWays(o.g, o.d) IN IF Pct(30) THEN w[1] ELSE Pick(w)
    [] o.j = "str" -> StrBytes(Utf8s(o.c))
    [] o.j = "lone" -> StrBytes(<<97, 200>>)
    [] o.j = "raw" -> o.b
    [] o.j = "arr" -> Sized(Len(o.e), <<144, 15>>, 0, 220, 221) \o EncAll(o.e)
    [] o.j = "map" -> Sized(Len(o.m), <<128, 15>>, 0, 222, 223) \o FoldLeft(LAMBDA acc, x : acc \o Enc(x[1]) \o Enc(x[2]), <<>>, o.m)

RBytes(k) == Tab(k, LAMBDA i : RandomElement(0..255))
(* sometimes a number near the bounds of the encodings, or that does not fit the type *)
Edges == << <<1,2,7>>, <<1,2,8>>, <<2,5,5>>, <<2,5,6>>, <<3,2>>, <<3,3>>, <<1,2,9>>, <<3,2,7,6,7>>, <<3,2,7,6,8>>, <<3,2,7,6,9>>, <<6,5,5,3,5>>, <<6,5,5,3,6>>,
            <<2,1,4,7,4,8,3,6,4,7>>, <<2,1,4,7,4,8,3,6,4,8>>, <<2,1,4,7,4,8,3,6,4,9>>, <<4,2,9,4,9,6,7,2,9,5>>, <<4,2,9,4,9,6,7,2,9,6>>,
            <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>, <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>, <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>, <<0>>, <<1>> >>
EdgeInt(s) ==   \* of type s, if possible
  LET d == Pick(Edges)  g == Signed(s) /\ Pct(50) /\ d # <<0>> IN
  IF DigLe(d, IF g THEN MinDigits(s) ELSE MaxDigits(s)) THEN [t |-> "int", g |-> g, d |-> d] ELSE RInt(s)
LooseInt(s) == LET d == Pick(Edges)  g == Pct(40) /\ d # <<0>> IN
               IF g /\ Len(d) >= 19 /\ d # <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>> THEN [j |-> "int", g |-> TRUE, d |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>] ELSE [j |-> "int", g |-> g, d |-> d]
(* wider than anything MessagePack has *)
TooWide(sh) == Scalar(sh) \in {"u128", "i128", "NonZeroU128", "NonZeroI128"}
RECURSIVE Edgy(_, _)    \* a value with numbers and texts of lengths near the bounds of the encodings
Edgy(sh, v) ==
  CASE v.t = "int" -> IF Pct(50) /\ ~TooWide(sh) THEN EdgeInt(Scalar(sh)) ELSE v
    [] v.t = "str" -> IF Pct(80) THEN v ELSE
                      LET k == Pick(<<15, 16, 31, 31, 32, 32, 33, 127, 128, 255, 256, 257>>) IN Str([i \in 1..k |-> IF i = k THEN 122 ELSE 97])
    [] v.t = "st" -> [v EXCEPT !.f = LET RECURSIVE E(_) E(i) == IF i > Len(v.f) THEN <<>> ELSE <<Edgy(Shapes[sh].f[i].sh, v.f[i])>> \o E(i + 1) IN E(1)]
    [] OTHER -> v

RECURSIVE ToObj(_, _, _), ObjFields(_, _, _)
ObjFields(fs, vs, loose) == IF fs = <<>> THEN <<>> ELSE << <<[j |-> "str", c |-> Head(fs).dn], ToObj(Head(fs).sh, Head(vs), loose)>> >> \o ObjFields(Tail(fs), Tail(vs), loose)
ToObj(sh, v, loose) ==   \* loose: percentage of numbers that may not fit
  CASE v.t = "int" -> IF Pct(loose) THEN LooseInt(v) ELSE [j |-> "int", g |-> v.g, d |-> IF Len(v.d) > 20 \/ TooWide(sh) THEN <<7>> ELSE v.d]
    [] v.t = "bool" -> [j |-> "bool", b |-> v.b]
    [] v.t = "str" -> [j |-> "str", c |-> v.c]
    [] v.t = "st" -> [j |-> "map", m |-> LET m == ObjFields(Shapes[sh].f, v.f, loose) IN IF Pct(60) THEN Shuffle(m) ELSE m]
    [] v.t = "list" -> [j |-> "arr", e |-> LET RECURSIVE E(_) E(i) == IF i > Len(v.e) THEN <<>> ELSE <<ToObj(Shapes[sh].t, v.e[i], loose)>> \o E(i + 1) IN E(1)]
    [] v.t = "some" -> ToObj(Shapes[sh].t, v.x, loose)
    [] v.t = "flt" -> [j |-> "raw", b |-> <<203>> \o RBytes(8)]
    [] OTHER -> [j |-> "nil"]

RECURSIVE AnyObj(_), AnyObjs(_, _), AnyPairs(_, _)
AnyObjs(k, deep) == IF k = 0 THEN <<>> ELSE Append(AnyObjs(k - 1, deep), AnyObj(deep))
AnyPairs(k, deep) == IF k = 0 THEN <<>> ELSE Append(AnyPairs(k - 1, deep), <<AnyObj(deep), AnyObj(deep)>>)
AnyObj(deep) ==
  LET c == RandomElement(1..(IF deep = 0 THEN 13 ELSE 17))
      k == Pick(<<0, 1, 2, 3, 5, 8>>) IN
  CASE c = 1 -> [j |-> "nil"] [] c = 2 -> [j |-> "bool", b |-> Pct(50)] [] c \in {3, 4} -> [j |-> "str", c |-> RText(c)] [] c = 5 -> [j |-> "lone"]
    [] c = 6 -> [j |-> "raw", b |-> <<202>> \o RBytes(4)] [] c = 7 -> [j |-> "raw", b |-> <<203>> \o RBytes(8)]
    [] c \in {8, 9} -> LooseInt(c)
    [] c = 10 -> [j |-> "raw", b |-> Pick(<< <<196>> \o Be(k, 1), <<197>> \o Be(k, 2), <<198>> \o Be(k, 4) >>) \o RBytes(k)]
    [] c = 11 -> [j |-> "raw", b |-> Pick(<< <<199>> \o Be(k, 1), <<200>> \o Be(k, 2), <<201>> \o Be(k, 4) >>) \o RBytes(k + 1)]
    [] c = 12 -> LET w == RandomElement(0..4) IN [j |-> "raw", b |-> <<212 + w>> \o RBytes(1 + <<1, 2, 4, 8, 16>>[w + 1])]
    [] c = 13 -> [j |-> "str", c |-> [i \in 1..Pick(<<31, 32, 40, 256>>) |-> 98]]
    [] c \in {14, 15} -> [j |-> "arr", e |-> AnyObjs(IF Pct(8) THEN 17 ELSE RandomElement(0..3), deep - 1)]
    [] OTHER -> [j |-> "map", m |-> AnyPairs(IF Pct(8) THEN 17 ELSE RandomElement(0..3), deep - 1)]

NearName(S) ==
  LET k == IF S.f = <<>> THEN <<120>> ELSE Pick(S.f).dn  c == RandomElement(1..6) IN
  CASE c = 1 -> Append(k, Pick(Codes)) [] c = 2 -> <<>> [] c = 3 -> RText(c) [] c = 4 -> <<95>> \o k [] c = 5 -> SubSeq(k, 1, Len(k) - 1) [] OTHER -> k \o k
Insert(s, x) == LET k == RandomElement(0..Len(s)) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Fiddle(_, _), Unknowns(_, _, _), Kept(_, _)
Kept(s, keep) == IF s = <<>> THEN <<>> ELSE (IF Pct(keep) THEN <<Head(s)>> ELSE <<>>) \o Kept(Tail(s), keep)
Unknowns(S, m, k) == IF k = 0 THEN m ELSE Unknowns(S, Insert(m, <<IF Pct(6) THEN AnyObj(0) ELSE [j |-> "str", c |-> NearName(S)], AnyObj(2)>>), k - 1)
Fiddle(sh, o) ==
  IF o.j # "map" \/ K(sh) # "struct" THEN o
  ELSE LET S == Shapes[sh]
           inner(x) == LET at == {i \in 1..Len(S.f) : x[1] = [j |-> "str", c |-> S.f[i].dn]} IN
                       IF at = {} THEN x ELSE <<x[1], Fiddle(S.f[CHOOSE i \in at : TRUE].sh, x[2])>>
           m1 == Tab(Len(o.m), LAMBDA i : inner(o.m[i]))
           m2 == IF Pct(25) THEN Kept(m1, 90) ELSE m1
           m3 == IF Pct(55) THEN Unknowns(S, m2, RandomElement(1..2)) ELSE m2
           m4 == IF Pct(10) /\ m1 # <<>> THEN Insert(m3, Pick(m1)) ELSE m3
       IN [o EXCEPT !.m = m4]
RECURSIVE Misfit(_)
Misfit(o) ==
  CASE o.j = "map" /\ o.m # <<>> /\ Pct(85) -> LET k == RandomElement(1..Len(o.m)) IN [o EXCEPT !.m[k][2] = Misfit(@)]
    [] OTHER -> AnyObj(1)

Marks == <<0, 127, 128, 129, 143, 144, 159, 160, 161, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212,
              213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 255, 1, 2, 97, 98, 105, 100>>
GarbleM(b) ==
  IF b = <<>> THEN <<Pick(Marks)>>
  ELSE LET k == RandomElement(1..Len(b))  c == RandomElement(1..10) IN
    IF c <= 4 THEN [b EXCEPT ![k] = Pick(Marks)]
    ELSE IF c = 5 THEN [b EXCEPT ![k] = (@ + 1) % 256]
    ELSE IF c = 6 THEN SubSeq(b, 1, k) \o <<Pick(Marks)>> \o SubSeq(b, k + 1, Len(b))
    ELSE IF c = 7 THEN SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))
    ELSE IF c = 8 THEN SubSeq(b, 1, k) \o RBytes(2)
    ELSE SubSeq(b, 1, k - 1)
RECURSIVE GarbleN(_, _)
GarbleN(b, k) == IF k = 0 THEN b ELSE GarbleN(GarbleM(b), k - 1)
Soup(x) == FoldLeft(LAMBDA acc, i : Append(acc, Pick(Marks)), <<>>, [i \in 1..RandomElement(1..12) |-> i])

RType(x) == ShIdx(RandomElement(Types))
ObjFor(sh, loose) == ToObj(sh, Edgy(sh, GenV(sh, Deep)), loose)
Case(m) ==
  LET sh == RType(m) IN
  CASE Mode = "valid" -> [k |-> "read", sh |-> sh, b |-> Enc(ObjFor(sh, 3)) \o (IF Pct(2) THEN RBytes(1) ELSE <<>>)]
    [] Mode = "fields" -> [k |-> "read", sh |-> sh, b |-> Enc(Fiddle(sh, ObjFor(sh, 1)))]
    [] Mode = "garbled" ->
         LET c == RandomElement(1..10) IN
         [k |-> "read", sh |-> sh,
          b |-> IF c <= 5 THEN GarbleN(Enc(Fiddle(sh, ObjFor(sh, 1))), RandomElement(1..2))
                ELSE IF c <= 7 THEN Enc(Misfit(ObjFor(sh, 1)))
                ELSE IF c = 8 THEN Enc(ObjFor(RType(c), 1))
                ELSE IF c = 9 THEN Soup(c) ELSE LET w == Enc(ObjFor(sh, 0)) IN SubSeq(w, 1, RandomElement(0..Len(w)))]
    [] Mode = "write" -> [k |-> "write", sh |-> sh, v |-> Edgy(sh, GenV(sh, Deep))]

Init == n = 0
Next == n' = n + 1 /\ PrintT(ToJson(Case(n)))
=============================================================================
