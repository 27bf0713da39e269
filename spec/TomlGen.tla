------------------------------- MODULE TomlGen -------------------------------
(* TOML documents to read, in random spellings: one case a step.

   valid   documents denoting a value of the type; numbers in and out of range
   misfit  keys missing, unknown or twice, and parts that are something else
   garbled documents with a few characters changed, whose meaning is left open *)
EXTENDS ValueGen, Toml, Json

CONSTANTS Mode, Types, Deep
VARIABLES n

----------------------------------------------------------------------------
(* what documents say *)
IntTree(s, v) ==
  LET c == RandomElement(1..40)
      up == IF v.g THEN MinDigits(s) ELSE MaxDigits(s)
      over == ToDigits(Add(FromDigits(up), <<1>>))
  IN IF c = 1 THEN [j |-> "int", g |-> v.g, d |-> over]
     ELSE IF c = 2 THEN [j |-> "int", g |-> TRUE, d |-> IF v.d = <<0>> THEN <<1>> ELSE v.d]
     ELSE IF c = 3 THEN [j |-> "int", g |-> Pct(50), d |-> Lead(<<RandomElement(1..9)>> \o RDigits(RandomElement(0..19)))]
     ELSE IF c = 4 THEN [j |-> "flt", n |-> Norm(v.g, v.d, 0 - RandomElement(0..2))]
     ELSE IF c = 5 THEN IF Pct(50) THEN [j |-> "inf", g |-> Pct(50)] ELSE [j |-> "nan"]
     ELSE IF c = 6 THEN [j |-> "int", g |-> v.g, d |-> LET m == IF v.g THEN MinDigits("i64") ELSE MaxDigits("i64") IN IF Pct(50) THEN m ELSE ToDigits(Add(FromDigits(m), <<1>>))]
     ELSE [j |-> "int", g |-> v.g, d |-> IF I64(v.g, v.d) THEN v.d ELSE MaxDigits("i64")]
FltTree(s) ==
  LET c == RandomElement(1..20) IN
  IF c = 1 THEN [j |-> "inf", g |-> Pct(50)]
  ELSE IF c = 2 THEN [j |-> "nan"]
  ELSE IF c <= 4 THEN [j |-> "int", g |-> Pct(50), d |-> <<RandomElement(1..9)>> \o RDigits(RandomElement(0..17))]
  ELSE [j |-> "flt", n |-> Norm(Pct(40), Lead(RDigits(RandomElement(1..(IF c <= 15 THEN 7 ELSE 20)))),
                                 IF c <= 12 THEN RandomElement((0 - 8)..8) ELSE IF c <= 18 THEN RandomElement((0 - 60)..45) ELSE RandomElement((0 - 330)..290))]

Tab_(m) == [j |-> "tab", m |-> m]
RECURSIVE ToTree(_, _), TreeList(_, _), TreeFields(_, _, _), TreePairs(_, _)
TreeList(sh, e) == IF e = <<>> THEN <<>> ELSE <<ToTree(sh, Head(e))>> \o TreeList(sh, Tail(e))
TreeFields(fs, vs, keys) ==   \* what is absent is not written
  IF fs = <<>> THEN <<>>
  ELSE (IF Head(vs).t = "none" THEN <<>> ELSE << <<Head(keys), ToTree(Head(fs).sh, Head(vs))>> >>) \o TreeFields(Tail(fs), Tail(vs), Tail(keys))
TreePairs(sh, e) == IF e = <<>> THEN <<>> ELSE << <<IF Head(e)[1].t = "str" THEN Head(e)[1].c ELSE <<107, 48 + Len(e)>>, ToTree(Shapes[sh].vt, Head(e)[2])>> >> \o TreePairs(sh, Tail(e))
ToTree(sh, v) ==
  CASE v.t = "int" -> IntTree(Scalar(sh), v)
    [] v.t = "flt" -> FltTree(Scalar(sh))
    [] v.t = "bool" -> [j |-> "bool", b |-> v.b]
    [] v.t = "str" -> [j |-> "str", c |-> v.c]
    [] v.t = "chr" -> [j |-> "str", c |-> <<v.u>>]
    [] v.t = "some" -> ToTree(Shapes[sh].t, v.x)
    [] v.t \in {"list", "arr"} -> LET e == TreeList(Shapes[sh].t, v.e) IN
         [j |-> IF e # <<>> /\ Pct(10) /\ \A i \in 1..Len(e) : e[i].j = "tab" THEN "aot" ELSE "arr", e |-> e]
    [] v.t = "map" -> Tab_(TreePairs(sh, v.e))
    [] v.t = "st" -> Tab_(TreeFields(Shapes[sh].f, v.f, [i \in 1..Len(v.f) |-> Shapes[sh].f[i].dn]))
    [] v.t = "en" ->
         LET V == Shapes[sh].vs[v.i] IN
         IF V.kind = "unit" THEN IF Pct(92) THEN [j |-> "str", c |-> V.key] ELSE Tab_(<< <<V.key, Tab_(<<>>)>> >>)
         ELSE IF V.kind = "struct" THEN Tab_(<< <<V.key, Tab_(TreeFields(V.f, v.f, [i \in 1..Len(v.f) |-> V.f[i].dn]))>> >>)
         ELSE IF Len(V.f) = 1 /\ Pct(60) THEN Tab_(<< <<V.key, ToTree(V.f[1].sh, v.f[1])>> >>)
         ELSE Tab_(<< <<V.key, Tab_(TreeFields(V.f, v.f, [i \in 1..Len(v.f) |-> IdxKey(i)]))>> >>)
    [] OTHER -> [j |-> "str", c |-> <<>>]

RECURSIVE AnyTree(_), AnyTrees(_, _), AnyEntries(_, _)
AnyTrees(k, deep) == IF k = 0 THEN <<>> ELSE Append(AnyTrees(k - 1, deep), AnyTree(deep))
AnyEntries(k, deep) == IF k = 0 THEN <<>> ELSE Append(AnyEntries(k - 1, deep), <<IF Pct(30) THEN <<48 + k>> ELSE Append(RText(k), 48 + k), AnyTree(deep)>>)
AnyTree(deep) ==
  LET c == RandomElement(1..(IF deep = 0 THEN 8 ELSE 12)) IN
  CASE c = 1 -> [j |-> "bool", b |-> Pct(50)] [] c \in {2, 3} -> [j |-> "str", c |-> RText(c)] [] c = 4 -> FltTree("f64")
    [] c = 5 -> [j |-> "date"] [] c \in {6, 7} -> [j |-> "int", g |-> FALSE, d |-> Num(RandomElement(0..300)).d] [] c = 8 -> IntTree("i64", RInt("i64"))
    [] c \in {9, 10} -> [j |-> "arr", e |-> AnyTrees(RandomElement(0..3), deep - 1)]
    [] OTHER -> Tab_(AnyEntries(RandomElement(0..3), deep - 1))

Insert_(s, x) == LET k == RandomElement(0..Len(s)) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Misfit(_)
Misfit(d) ==
  LET c == RandomElement(1..10) IN
  CASE d.j = "arr" /\ d.e # <<>> /\ c <= 8 -> LET k == RandomElement(1..Len(d.e)) IN [d EXCEPT !.e[k] = Misfit(@)]
    [] d.j = "tab" /\ d.m # <<>> /\ c <= 7 -> LET k == RandomElement(1..Len(d.m)) IN [d EXCEPT !.m[k][2] = Misfit(@)]
    [] d.j = "tab" /\ d.m # <<>> /\ c = 8 -> LET k == RandomElement(1..Len(d.m)) IN [d EXCEPT !.m = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
    [] d.j = "tab" /\ c = 9 -> LET k == IF d.m # <<>> /\ Pct(50) THEN Pick(d.m)[1] \o <<95>> ELSE <<122, 122>> \o RText(c) IN
         [d EXCEPT !.m = Insert_(@, <<k, AnyTree(2)>>)]
    [] d.j = "str" /\ c <= 5 /\ d.c # <<>> -> [d EXCEPT !.c = IF Pct(50) THEN Append(@, 97) ELSE SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> AnyTree(2)

----------------------------------------------------------------------------
(* spelling: sequences of codes *)
Nl(x) == IF Pct(90) THEN <<10>> ELSE <<13, 10>>
Sp(x) == IF Pct(60) THEN <<>> ELSE Tab(RandomElement(1..2), LAMBDA i : Pick(<<32, 32, 9>>))
Comment(x) == IF Pct(88) THEN <<>> ELSE <<35, 32, 97, 61, 91, 34, 39, 233, 9, 98>>
Hex1(v) == IF v < 10 THEN 48 + v ELSE IF Pct(50) THEN 55 + v ELSE 87 + v
HexOf(c, k) == LET RECURSIVE H(_, _)
                   H(x, m) == IF m = 0 THEN <<>> ELSE Append(H(x \div 16, m - 1), Hex1(x % 16))
               IN H(c, k)
Esc(c) ==
  LET short == CASE c = 8 -> 98 [] c = 9 -> 116 [] c = 10 -> 110 [] c = 12 -> 102 [] c = 13 -> 114 [] c = 34 -> 34 [] c = 92 -> 92 [] OTHER -> 0 IN
  IF short # 0 /\ Pct(70) THEN <<92, short>> ELSE IF c < 65536 /\ Pct(80) THEN <<92, 117>> \o HexOf(c, 4) ELSE <<92, 85>> \o HexOf(c, 8)
Control(c) == (c < 32 /\ c # 9) \/ c = 127
Basic(cs, plain) == <<34>> \o FoldLeft(LAMBDA acc, c : acc \o (IF Control(c) \/ c \in {34, 92} \/ (~plain /\ Pct(30)) THEN Esc(c) ELSE <<c>>), <<>>, cs) \o <<34>>
Literal(cs) == <<39>> \o cs \o <<39>>
(* on several lines: newlines may stand for themselves, and a backslash at the end of a line hides the break *)
MultiBasic(cs) ==
  LET one(acc, c) ==
        acc \o (IF Pct(6) /\ c \notin {32, 9, 10, 13} THEN <<92, 10, 32, 10, 9>> ELSE <<>>)
            \o (IF c = 10 /\ Pct(70) THEN <<10>> ELSE IF Control(c) \/ c \in {92} \/ (c = 34 /\ (Pct(50) \/ (acc # <<>> /\ acc[Len(acc)] = 34))) \/ Pct(5) THEN Esc(c) ELSE <<c>>)
      body == FoldLeft(one, <<>>, cs)
      safe == IF cs # <<>> /\ cs[Len(cs)] = 34 /\ body[Len(body)] = 34 /\ (Len(body) = 1 \/ body[Len(body) - 1] # 92) THEN SubSeq(body, 1, Len(body) - 1) \o <<92, 34>> ELSE body
  IN <<34, 34, 34, 10>> \o safe \o <<34, 34, 34>>
MultiLiteral(cs) == <<39, 39, 39, 10>> \o cs \o <<39, 39, 39>>
Text(cs, oneline) ==
  LET has(x) == \E i \in DOMAIN cs : cs[i] = x
      control == \E i \in DOMAIN cs : Control(cs[i])
      ctrlnl == \E i \in DOMAIN cs : Control(cs[i]) /\ cs[i] # 10
      c == RandomElement(1..10)
  IN IF c <= 2 /\ ~has(39) /\ ~control THEN Literal(cs)
     ELSE IF c = 3 /\ ~oneline THEN MultiBasic(cs)
     ELSE IF c = 4 /\ ~oneline /\ ~has(39) /\ ~ctrlnl THEN MultiLiteral(cs)
     ELSE Basic(cs, c <= 8)
BareCode(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 95}
Key(k) ==
  LET bare == k # <<>> /\ \A i \in DOMAIN k : BareCode(k[i])  c == RandomElement(1..10) IN
  IF bare /\ c <= 7 THEN k
  ELSE IF c = 10 /\ ~\E i \in DOMAIN k : Control(k[i]) \/ k[i] = 39 THEN Literal(k) ELSE Basic(k, c <= 9)

Under(cs) == IF Len(cs) < 2 \/ Pct(80) THEN cs ELSE LET k == RandomElement(1..(Len(cs) - 1)) IN SubSeq(cs, 1, k) \o <<95>> \o SubSeq(cs, k + 1, Len(cs))
Dg(d) == [i \in 1..Len(d) |-> d[i] + 48]
RECURSIVE Base_(_, _)
Base_(a, k) == IF a = <<>> THEN <<>> ELSE LET q == DivSmall(a, k) IN Append(Base_(q.q, k), Hex1(q.r))
IntText(g, d) ==
  LET c == RandomElement(1..10)
      in(k) == IF d = <<0>> THEN <<48>> ELSE Base_(FromDigits(d), k)
      lead == IF Pct(80) THEN <<>> ELSE <<48>>
  IN IF ~g /\ c = 1 THEN <<48, 120>> \o Under(lead \o in(16))
     ELSE IF ~g /\ c = 2 THEN <<48, 111>> \o Under(lead \o in(8))
     ELSE IF ~g /\ c = 3 THEN <<48, 98>> \o Under(lead \o in(2))
     ELSE (IF g THEN <<45>> ELSE IF c = 4 THEN <<43>> ELSE <<>>) \o Under(Dg(d))
FltText(x) ==   \* at least a point or an exponent; x: number
  LET l == Len(x.d)
      k == RandomElement(1..l)
      sg == IF x.g THEN <<45>> ELSE IF Pct(10) THEN <<43>> ELSE <<>>
      i == IF Pct(20) THEN <<0>> ELSE SubSeq(x.d, 1, k)
      f == IF i = <<0>> /\ x.d # <<0>> THEN x.d ELSE SubSeq(x.d, k + 1, l)
      e == x.x + Len(f)
      ea == IF e < 0 THEN 0 - e ELSE e
      ex == IF e = 0 /\ Pct(70) THEN <<>> ELSE <<Pick(<<69, 101>>)>> \o (IF e < 0 THEN <<45>> ELSE IF Pct(30) THEN <<43>> ELSE <<>>) \o (IF Pct(20) THEN <<48>> ELSE <<>>) \o Dg(Num(ea).d)
      fr == IF f = <<>> THEN IF ex = <<>> \/ Pct(40) THEN <<46, 48>> ELSE <<>> ELSE <<46>> \o Under(Dg(f))
      plain == LET z == Zeros(12) \o x.d  p == Len(z) + x.x  w == SubSeq(z, 1, p) IN sg \o Dg(Lead(w)) \o <<46>> \o Dg(SubSeq(z, p + 1, Len(z)))
  IN IF x.x < 0 /\ x.x > 0 - 12 /\ Pct(60) THEN plain ELSE sg \o Dg(i) \o fr \o ex

Dates == << <<49,57,55,57,45,48,53,45,50,55>>, <<48,55,58,51,50,58,48,48>>, <<49,57,55,57,45,48,53,45,50,55,84,48,55,58,51,50,58,48,48,90>> >>
Gap(inl) == IF inl THEN Sp(inl) ELSE IF Pct(75) THEN Sp(inl) ELSE Comment(inl) \o Nl(inl) \o Sp(inl)     \* in an array, lines may end
RECURSIVE Val(_, _), Inline(_)
Val(d, inl) ==
  CASE d.j = "int" -> IntText(d.g, d.d)
    [] d.j = "flt" -> FltText(d.n)
    [] d.j = "inf" -> (IF d.g THEN <<45>> ELSE IF Pct(30) THEN <<43>> ELSE <<>>) \o <<105, 110, 102>>
    [] d.j = "nan" -> (IF Pct(60) THEN <<>> ELSE Pick(<< <<43>>, <<45>> >>)) \o <<110, 97, 110>>
    [] d.j = "bool" -> IF d.b THEN TextTrue ELSE TextFalse
    [] d.j = "str" -> Text(d.c, inl)
    [] d.j = "date" -> Pick(Dates)
    [] d.j \in {"arr", "aot"} ->
         <<91>> \o Gap(inl) \o Join(Tab(Len(d.e), LAMBDA i : Gap(inl) \o Val(d.e[i], inl) \o Gap(inl)), <<44>>)
                \o (IF d.e # <<>> /\ Pct(20) THEN <<44>> \o Gap(inl) ELSE <<>>) \o <<93>>
    [] d.j = "tab" -> <<123>> \o Sp(d) \o Join(Tab(Len(d.m), LAMBDA i : Sp(i) \o Inline(d.m[i]) \o Sp(i)), <<44>>) \o <<125>>
Inline(e) ==   \* an entry of an inline table: perhaps with a dotted key
  IF e[2].j = "tab" /\ Len(e[2].m) = 1 /\ Pct(30)
  THEN Key(e[1]) \o Sp(e) \o <<46>> \o Sp(e) \o Inline(e[2].m[1])
  ELSE Key(e[1]) \o Sp(e) \o <<61>> \o Sp(e) \o Val(e[2], TRUE)
Eol(x) == Sp(x) \o Comment(x) \o Nl(x) \o (IF Pct(10) THEN Sp(x) \o Nl(x) ELSE IF Pct(4) THEN <<35, 120>> \o Nl(x) ELSE <<>>)

(* a table: lines, and sections that can go anywhere after them *)
RECURSIVE Lines(_, _), Sections(_, _, _), Dotted(_, _), Members(_, _, _)
Dotted(pre, e) ==  \* the lines for an entry under a dotted key
  IF e[2].j = "tab" /\ e[2].m # <<>> /\ Pct(50)
  THEN FoldLeft(LAMBDA acc, x : acc \o Dotted(pre \o Key(e[1]) \o Sp(e) \o <<46>> \o Sp(e), x), <<>>, e[2].m)
  ELSE Sp(e) \o pre \o Key(e[1]) \o Sp(e) \o <<61>> \o Sp(e) \o Val(e[2], FALSE) \o Eol(e)
Lines(m, how) ==  \* how[i]: 1 inline, 2 dotted, 3 a section
  FoldLeft(LAMBDA acc, i : IF how[i] = 3 THEN acc ELSE IF how[i] = 2 THEN acc \o FoldLeft(LAMBDA a, x : a \o Dotted(Key(m[i][1]) \o Sp(i) \o <<46>>, x), <<>>, m[i][2].m)
                           ELSE acc \o Sp(i) \o Key(m[i][1]) \o Sp(i) \o <<61>> \o Sp(i) \o Val(m[i][2], FALSE) \o Eol(i), <<>>, [i \in 1..Len(m) |-> i])
How(m) == Tab(Len(m), LAMBDA i : IF m[i][2].j = "tab" THEN LET c == RandomElement(1..10) IN IF c <= 4 THEN 3 ELSE IF c <= 6 /\ m[i][2].m # <<>> THEN 2 ELSE 1
                                 ELSE IF m[i][2].j = "aot" THEN 3 ELSE 1)
Header(pre, k, o, c) == Sp(k) \o o \o Sp(k) \o pre \o Key(k) \o Sp(k) \o c \o Eol(k)
Sections(pre, m, how) ==   \* a sequence of texts
  FoldLeft(LAMBDA acc, i : IF how[i] = 3 THEN acc \o Members(pre, m[i][1], m[i][2]) ELSE acc, <<>>, [i \in 1..Len(m) |-> i])
Members(pre, k, d) ==
  IF d.j = "aot"
  THEN << FoldLeft(LAMBDA acc, t : acc \o Header(pre, k, <<91, 91>>, <<93, 93>>) \o Lines(t.m, [i \in 1..Len(t.m) |-> 1]), <<>>, d.e) >>
  ELSE LET h == How(d.m)
           ls == Lines(d.m, h)
           ss == Sections(pre \o Key(k) \o Sp(k) \o <<46>> \o Sp(k), d.m, h)
       IN (IF ls = <<>> /\ ss # <<>> /\ Pct(60) THEN <<>> ELSE <<Header(pre, k, <<91>>, <<93>>) \o ls>>) \o ss
Whole(d) ==
  LET h == How(d.m) IN
  (IF Pct(10) THEN Eol(d) ELSE <<>>) \o Lines(d.m, h) \o FoldLeft(LAMBDA acc, s : acc \o s, <<>>, Shuffle(Sections(<<>>, d.m, h)))

RECURSIVE Mixed(_), MixedAll(_)
MixedAll(s) == IF s = <<>> THEN <<>> ELSE <<Mixed(Head(s))>> \o MixedAll(Tail(s))
Mixed(d) ==
  CASE d.j \in {"arr", "aot"} -> [d EXCEPT !.e = MixedAll(@)]
    [] d.j = "tab" -> LET vs == MixedAll([i \in 1..Len(d.m) |-> d.m[i][2]])
                          ms == Tab(Len(d.m), LAMBDA i : <<d.m[i][1], vs[i]>>)
                      IN [d EXCEPT !.m = IF Pct(60) THEN Shuffle(ms) ELSE ms]
    [] OTHER -> d

----------------------------------------------------------------------------
Junk == <<0, 9, 10, 13, 32, 34, 35, 39, 43, 44, 45, 46, 48, 49, 57, 61, 91, 92, 93, 95, 97, 101, 110, 116, 120, 123, 125, 127, 233, 65279, 128512>>
Garble(b) ==
  IF b = <<>> THEN <<Pick(Junk)>>
  ELSE LET k == RandomElement(1..Len(b))  c == RandomElement(1..9) IN
    IF c <= 2 THEN SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))
    ELSE IF c <= 4 THEN SubSeq(b, 1, k) \o <<Pick(Junk)>> \o SubSeq(b, k + 1, Len(b))
    ELSE IF c <= 6 THEN [b EXCEPT ![k] = Pick(Junk)]
    ELSE IF c = 7 THEN SubSeq(b, 1, k - 1)
    ELSE SubSeq(b, 1, k) \o SubSeq(b, k, Len(b))
RECURSIVE GarbleN(_, _)
GarbleN(b, k) == IF k = 0 THEN b ELSE GarbleN(Garble(b), k - 1)
Rooted(d) == IF d.j = "tab" THEN d ELSE Tab_(<< <<<<120>>, d>> >>)     \* documents are tables

RType(x) == ShIdx(RandomElement(Types))
TreeFor(sh) == Rooted(Mixed(ToTree(sh, GenV(sh, Deep))))
(* two misfits at most: the table may end up with a key twice, which makes it no document *)
Misfits(d) == Rooted(IF Pct(20) THEN Misfit(Misfit(d)) ELSE Misfit(d))
Case(m) ==
  LET sh == RType(m)  d == TreeFor(sh) IN
  CASE Mode = "valid" -> [k |-> "read", sh |-> sh, d |-> d, b |-> Utf8s(Whole(d))]
    [] Mode = "misfit" ->
         LET e == IF Pct(15) THEN TreeFor(RType(d)) ELSE Misfits(d) IN [k |-> "read", sh |-> sh, d |-> e, b |-> Utf8s(Whole(e))]
    [] Mode = "garbled" -> [k |-> "read", sh |-> sh, d |-> [j |-> "open"], b |-> Utf8s(GarbleN(Whole(IF Pct(60) THEN d ELSE Misfits(d)), RandomElement(1..2)))]

Init == n = 0
Next == n' = n + 1 /\ PrintT(ToJson(Case(n)))
=============================================================================
