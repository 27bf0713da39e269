------------------------------- MODULE YamlGen -------------------------------
(* YAML documents to read, in random spellings: one case a step.

   valid   documents denoting a value of the type; numbers in and out of range
   misfit  keys missing, unknown or twice, and parts that are something else; no document, or several
   garbled documents with a few characters changed, whose meaning is left open *)
EXTENDS ValueGen, Yaml, Json

CONSTANTS Mode, Types, Deep
VARIABLES n

----------------------------------------------------------------------------
(* what documents say *)
IntTree(v) ==
  LET c == RandomElement(1..30) IN
  IF c = 1 THEN [j |-> "int", g |-> FALSE, d |-> ToDigits(Add(FromDigits(MaxDigits("u64")), <<1>>))]
  ELSE IF c = 2 THEN [j |-> "int", g |-> TRUE, d |-> IF v.d = <<0>> \/ ~DigLe(v.d, MaxDigits("i64")) THEN <<1>> ELSE v.d]
  ELSE IF c = 3 THEN [j |-> "int", g |-> Pct(30), d |-> Lead(<<RandomElement(1..9)>> \o RDigits(RandomElement(0..24)))]
  ELSE IF c = 4 THEN [j |-> "real", n |-> Norm(v.g, v.d, 0 - RandomElement(0..2))]
  ELSE IF c = 5 THEN [j |-> "str", c |-> LET d == [i \in 1..Len(v.d) |-> v.d[i] + 48] IN IF Pct(60) THEN d ELSE IF Pct(50) THEN <<43>> \o d ELSE <<45>> \o d]
  ELSE IF c = 6 THEN [j |-> "int", g |-> FALSE, d |-> IF Pct(50) THEN MaxDigits("i64") ELSE ToDigits(Add(FromDigits(MaxDigits("i64")), <<1>>))]
  ELSE [j |-> "int", g |-> FALSE, d |-> v.d]
Tab_(m) == [j |-> "tab", m |-> m]
Str_(c) == [j |-> "str", c |-> c]
RECURSIVE ToTree(_, _), TreeFields(_, _, _)
TreeFields(fs, vs, i) == IF fs = <<>> THEN <<>> ELSE << <<Str_(Head(fs).dn), ToTree(Head(fs).sh, Head(vs))>> >> \o TreeFields(Tail(fs), Tail(vs), i + 1)
ToTree(sh, v) ==
  CASE v.t = "int" -> IntTree(v)
    [] v.t = "str" -> Str_(v.c)
    [] v.t = "st" -> Tab_(TreeFields(Shapes[sh].f, v.f, 1))
    [] v.t = "bool" -> [j |-> "bool", b |-> v.b]
    [] v.t \in {"list", "arr"} -> [j |-> "arr", e |-> FoldLeft(LAMBDA acc, x : Append(acc, ToTree(Shapes[sh].t, x)), <<>>, v.e)]
    [] v.t = "some" -> ToTree(Shapes[sh].t, v.x)
    [] v.t = "none" -> [j |-> "null"]
    [] OTHER -> Tab_(<<>>)

RECURSIVE AnyTree(_), AnyTrees(_, _), AnyEntries(_, _)
AnyTrees(k, deep) == IF k = 0 THEN <<>> ELSE Append(AnyTrees(k - 1, deep), AnyTree(deep))
AnyEntries(k, deep) == IF k = 0 THEN <<>> ELSE Append(AnyEntries(k - 1, deep),
   <<IF Pct(10) THEN [j |-> "int", g |-> FALSE, d |-> <<k>>] ELSE Str_(Append(RText(k), 48 + k)), AnyTree(deep)>>)
AnyTree(deep) ==
  LET c == RandomElement(1..(IF deep = 0 THEN 9 ELSE 12)) IN
  CASE c = 1 -> [j |-> "bool", b |-> Pct(50)] [] c \in {2, 3} -> Str_(RText(c)) [] c = 4 -> [j |-> "null"]
    [] c = 5 -> [j |-> "real", n |-> Norm(Pct(30), RDigits(RandomElement(1..6)), RandomElement((0 - 8)..8))]
    [] c \in {6, 7, 8} -> [j |-> "int", g |-> FALSE, d |-> Num(RandomElement(0..300)).d] [] c = 9 -> IntTree(RInt("u64"))
    [] c = 10 -> [j |-> "arr", e |-> AnyTrees(RandomElement(0..3), deep - 1)]
    [] OTHER -> Tab_(AnyEntries(RandomElement(0..3), deep - 1))

Insert_(s, x) == LET k == RandomElement(0..Len(s)) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Misfit(_)
Misfit(d) ==
  LET c == RandomElement(1..12) IN
  CASE d.j = "arr" /\ d.e # <<>> /\ c <= 8 -> LET k == RandomElement(1..Len(d.e)) IN [d EXCEPT !.e[k] = Misfit(@)]
    [] d.j = "tab" /\ d.m # <<>> /\ c <= 6 -> LET k == RandomElement(1..Len(d.m)) IN [d EXCEPT !.m[k][2] = Misfit(@)]
    [] d.j = "tab" /\ d.m # <<>> /\ c \in {7, 8} -> LET k == RandomElement(1..Len(d.m)) IN [d EXCEPT !.m = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
    [] d.j = "tab" /\ d.m # <<>> /\ c = 9 -> LET k == RandomElement(1..Len(d.m)) IN [d EXCEPT !.m = Insert_(@, <<@[k][1], IF Pct(50) THEN @[k][2] ELSE AnyTree(1)>>)]
    [] d.j = "tab" /\ c <= 11 -> LET k == IF d.m # <<>> /\ Pct(50) /\ d.m[1][1].j = "str" THEN Str_(d.m[1][1].c \o <<95>>) ELSE IF Pct(20) THEN AnyTree(0) ELSE Str_(<<122, 122>> \o RText(c)) IN
         [d EXCEPT !.m = Insert_(@, <<k, AnyTree(2)>>)]
    [] OTHER -> AnyTree(2)

----------------------------------------------------------------------------
(* spelling: sequences of codes *)
Sp(x) == IF Pct(70) THEN <<>> ELSE Tab(RandomElement(1..2), LAMBDA i : 32)
Blank(k) == Tab(k, LAMBDA i : 32)
Comment(x) == IF Pct(90) THEN <<>> ELSE <<32, 35, 32, 97, 58, 32, 91, 34, 39, 233, 45, 98>>
Eol(x) == Comment(x) \o (IF Pct(12) THEN <<32>> ELSE <<>>) \o (IF Pct(92) THEN <<10>> ELSE <<13, 10>>) \o (IF Pct(8) THEN <<10>> ELSE IF Pct(5) THEN <<35, 120, 10>> ELSE <<>>)
Hex1(v) == IF v < 10 THEN 48 + v ELSE IF Pct(50) THEN 55 + v ELSE 87 + v
HexOf(c, k) == LET RECURSIVE H(_, _)
                   H(x, m) == IF m = 0 THEN <<>> ELSE Append(H(x \div 16, m - 1), Hex1(x % 16))
               IN H(c, k)
Esc(c) ==
  LET short == CASE c = 0 -> 48 [] c = 7 -> 97 [] c = 8 -> 98 [] c = 9 -> 116 [] c = 10 -> 110 [] c = 11 -> 118 [] c = 12 -> 102 [] c = 13 -> 114 [] c = 27 -> 101 [] c = 32 -> 32
               [] c = 34 -> 34 [] c = 47 -> 47 [] c = 92 -> 92 [] c = 133 -> 78 [] c = 160 -> 95 [] c = 8232 -> 76 [] c = 8233 -> 80 [] OTHER -> 0 IN
  IF short # 0 /\ Pct(60) THEN <<92, short>>
  ELSE IF c < 256 /\ Pct(60) THEN <<92, 120>> \o HexOf(c, 2)
  ELSE IF c < 65536 /\ Pct(80) THEN <<92, 117>> \o HexOf(c, 4) ELSE <<92, 85>> \o HexOf(c, 8)
Raw(c) == c \in 32..126 \/ (c \in 161..55295 /\ c \notin {8232, 8233})     \* may stand for itself anywhere
Double(cs, plain) == <<34>> \o FoldLeft(LAMBDA acc, c : acc \o (IF ~Raw(c) \/ c \in {34, 92} \/ (~plain /\ Pct(30)) THEN Esc(c) ELSE <<c>>), <<>>, cs) \o <<34>>
Single(cs) == <<39>> \o FoldLeft(LAMBDA acc, c : acc \o (IF c = 39 THEN <<39, 39>> ELSE <<c>>), <<>>, cs) \o <<39>>
Words == {<<116,114,117,101>>, <<102,97,108,115,101>>, <<110,117,108,108>>, <<110,97,110>>, <<105,110,102>>, <<105,110,102,105,110,105,116,121>>}
PlainOk(cs) == /\ cs # <<>> /\ cs[1] \in (97..122 \cup {233, 955, 12354}) /\ cs[Len(cs)] # 32
               /\ \A i \in DOMAIN cs : cs[i] \in (97..122 \cup 48..57 \cup {32, 95, 46, 47, 233, 955, 12354, 43, 60, 61})
               /\ cs \notin Words
Lines(cs) == LET RECURSIVE L(_, _, _)
                 L(i, cur, acc) == IF i > Len(cs) THEN Append(acc, cur) ELSE IF cs[i] = 10 THEN L(i + 1, <<>>, Append(acc, cur)) ELSE L(i + 1, Append(cur, cs[i]), acc)
             IN L(1, <<>>, <<>>)
(* a literal block: no leading space, no empty last line *)
LiteralOk(cs) == /\ cs # <<>> /\ cs[1] \notin {32, 10} /\ \A i \in DOMAIN cs : Raw(cs[i]) \/ cs[i] = 10
                 /\ (cs[Len(cs)] = 10 => Len(cs) > 1 /\ cs[Len(cs) - 1] # 10)
Literal(cs, ind) ==
  LET nl == cs[Len(cs)] = 10
      ls == Lines(IF nl THEN SubSeq(cs, 1, Len(cs) - 1) ELSE cs)
  IN <<124>> \o (IF nl THEN <<>> ELSE <<45>>) \o <<10>> \o Concat([i \in 1..Len(ls) |-> (IF ls[i] = <<>> THEN <<>> ELSE Blank(ind) \o ls[i]) \o <<10>>])
OneLine(cs) ==
  LET c == RandomElement(1..10) IN
  IF c <= 4 /\ PlainOk(cs) THEN IF Pct(5) THEN <<33, 33, 115, 116, 114, 32>> \o cs ELSE cs
  ELSE IF c <= 6 /\ \A i \in DOMAIN cs : Raw(cs[i]) THEN Single(cs)
  ELSE IF c = 7 /\ cs # <<>> /\ \A i \in DOMAIN cs : cs[i] \in 48..57 THEN <<33, 33, 115, 116, 114, 32>> \o cs     \* !!str
  ELSE Double(cs, c <= 8)
Dg(d) == [i \in 1..Len(d) |-> d[i] + 48]
RECURSIVE Base_(_, _)
Base_(a, k) == IF a = <<>> THEN <<>> ELSE LET q == DivSmall(a, k) IN Append(Base_(q.q, k), Hex1(q.r))
IntText(g, d) ==
  LET c == RandomElement(1..12)
      in(k) == IF d = <<0>> THEN <<48>> ELSE Base_(FromDigits(d), k)
      fits == DigLe(d, MaxDigits("i64"))
  IN IF ~g /\ fits /\ c = 1 THEN <<48, 120>> \o in(16)
     ELSE IF ~g /\ fits /\ c = 2 THEN <<48, 111>> \o in(8)
     ELSE IF fits /\ ~g /\ c = 4 THEN <<33, 33, 105, 110, 116, 32>> \o Dg(d)
     ELSE (IF g THEN <<45>> ELSE IF c = 3 THEN <<43>> ELSE <<>>) \o (IF c = 5 THEN <<48>> ELSE <<>>) \o Dg(d)
RealText(x) ==   \* with a point
  LET l == Len(x.d)
      sg == IF x.g THEN <<45>> ELSE <<>>
      k == RandomElement(1..l)
      e == x.x + (l - k)
      ea == IF e < 0 THEN 0 - e ELSE e
  IN sg \o Dg(SubSeq(x.d, 1, k)) \o <<46>> \o (IF k = l THEN <<48>> ELSE Dg(SubSeq(x.d, k + 1, l))) \o (IF e = 0 THEN <<>> ELSE <<101>> \o (IF e < 0 THEN <<45>> ELSE <<43>>) \o Dg(Num(ea).d))
Scalar1(d) == CASE d.j = "int" -> IntText(d.g, d.d) [] d.j = "real" -> RealText(d.n) [] d.j = "bool" -> IF d.b THEN TextTrue ELSE TextFalse
                [] d.j = "null" -> Pick(<< <<126>>, <<110, 117, 108, 108>> >>) [] d.j = "str" -> OneLine(d.c)
RECURSIVE Flow(_)
Flow(d) ==
  CASE d.j = "arr" -> <<91>> \o Join(Tab(Len(d.e), LAMBDA i : Sp(i) \o Flow(d.e[i]) \o Sp(i)), <<44>>) \o <<93>>
    [] d.j = "tab" -> <<123>> \o Join(Tab(Len(d.m), LAMBDA i : Sp(i) \o Flow(d.m[i][1]) \o <<58, 32>> \o Sp(i) \o Flow(d.m[i][2]) \o Sp(i)), <<44>>) \o <<125>>
    [] OTHER -> Scalar1(d)
Anchor(k) == IF Pct(94) THEN <<>> ELSE <<38, 97>> \o Dg(Num(RandomElement(0..99)).d)
(* a value after a key (or a dash) at some indentation: what follows up to the end of the line and on the next ones *)
RECURSIVE After(_, _), Block(_, _)
After(d, ind) ==
  LET step == RandomElement(1..3)  an == Anchor(d)  sep == IF an = <<>> THEN <<32>> ELSE <<32>> \o an \o <<32>> IN
  IF d.j = "tab" /\ d.m # <<>> /\ Pct(70) THEN (IF an = <<>> THEN <<>> ELSE <<32>> \o an) \o Eol(d) \o Block(d, ind + step)
  ELSE IF d.j = "arr" /\ d.e # <<>> /\ Pct(60) THEN (IF an = <<>> THEN <<>> ELSE <<32>> \o an) \o Eol(d) \o Block(d, ind + step)
  ELSE IF d.j = "str" /\ LiteralOk(d.c) /\ Pct(12) THEN <<32>> \o Literal(d.c, ind + step)
  ELSE IF d.j = "null" /\ Pct(30) THEN Eol(d)
  ELSE sep \o Sp(d) \o Flow(d) \o Eol(d)
Block(d, ind) ==
  CASE d.j = "tab" -> FoldLeft(LAMBDA acc, e : acc \o Blank(ind) \o (IF e[1].j \in {"arr", "tab"} THEN <<63, 32>> \o Flow(e[1]) \o <<10>> \o Blank(ind) ELSE Flow(e[1])) \o Sp(e) \o <<58>> \o After(e[2], ind), <<>>, d.m)
    [] d.j = "arr" -> FoldLeft(LAMBDA acc, e : acc \o Blank(ind) \o <<45>> \o After(e, ind), <<>>, d.e)
Body(d) == IF d.j \in {"tab"} /\ d.m # <<>> /\ Pct(75) THEN Block(d, IF Pct(90) THEN 0 ELSE 2) ELSE Flow(d) \o Eol(d)
Whole(d) ==
  (IF Pct(8) THEN <<35, 32, 120, 10>> ELSE <<>>)
  \o (IF Pct(6) THEN <<37, 89, 65, 77, 76, 32, 49, 46, 50, 10, 45, 45, 45, 10>> ELSE IF Pct(15) THEN <<45, 45, 45, 10>> ELSE <<>>)
  \o Body(d) \o (IF Pct(8) THEN <<46, 46, 46, 10>> ELSE <<>>)

RECURSIVE Mixed(_), MixedAll(_)
MixedAll(s) == IF s = <<>> THEN <<>> ELSE <<Mixed(Head(s))>> \o MixedAll(Tail(s))
Mixed(d) ==
  CASE d.j = "arr" -> [d EXCEPT !.e = MixedAll(@)]
    [] d.j = "tab" -> LET vs == MixedAll([i \in 1..Len(d.m) |-> d.m[i][2]])
                          ms == Tab(Len(d.m), LAMBDA i : <<d.m[i][1], vs[i]>>)
                      IN [d EXCEPT !.m = IF Pct(60) THEN Shuffle(ms) ELSE ms]
    [] OTHER -> d

----------------------------------------------------------------------------
Junk == <<0, 9, 10, 13, 32, 33, 34, 35, 37, 38, 39, 42, 44, 45, 46, 48, 49, 57, 58, 62, 63, 64, 91, 92, 93, 96, 97, 120, 123, 124, 125, 126, 127, 233, 65279, 128512>>
Garble(b) ==
  IF b = <<>> THEN <<Pick(Junk)>>
  ELSE LET k == RandomElement(1..Len(b))  c == RandomElement(1..9) IN
    IF c <= 2 THEN SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))
    ELSE IF c <= 4 THEN SubSeq(b, 1, k) \o <<Pick(Junk)>> \o SubSeq(b, k + 1, Len(b))
    ELSE IF c <= 6 THEN [b EXCEPT ![k] = Pick(Junk)]
    ELSE IF c = 7 THEN SubSeq(b, 1, k - 1)
    ELSE SubSeq(b, 1, k) \o SubSeq(b, k, Len(b))
RECURSIVE GarbleN(_, _)
GarbleN(b, k) == IF k = 0 THEN b ELSE GarbleN(Garble(b), k - 1)

RType(x) == ShIdx(RandomElement(Types))
TreeFor(sh) == Mixed(ToTree(sh, GenV(sh, Deep)))
Misfits(d) == IF Pct(20) THEN Misfit(Misfit(d)) ELSE Misfit(d)
Bad(d) == LET c == RandomElement(1..3) IN IF c = 1 THEN <<>> ELSE IF c = 2 THEN <<35, 32, 120, 10>> ELSE Body(d) \o <<45, 45, 45, 10>> \o Body(d)
Case(m) ==
  LET sh == RType(m)  d == TreeFor(sh) IN
  CASE Mode = "valid" -> [k |-> "read", sh |-> sh, d |-> d, b |-> Utf8s(Whole(d))]
    [] Mode = "misfit" ->
         IF Pct(3) THEN [k |-> "read", sh |-> sh, d |-> [j |-> "bad"], b |-> Utf8s(Bad(d))]
         ELSE LET e == IF Pct(15) THEN TreeFor(RType(d)) ELSE Misfits(d) IN [k |-> "read", sh |-> sh, d |-> e, b |-> Utf8s(Whole(e))]
    [] Mode = "garbled" -> [k |-> "read", sh |-> sh, d |-> [j |-> "open"], b |-> Utf8s(GarbleN(Whole(IF Pct(60) THEN d ELSE Misfits(d)), RandomElement(1..2)))]

Init == n = 0
Next == n' = n + 1 /\ PrintT(ToJson(Case(n)))
=============================================================================
