------------------------------- MODULE FormGen -------------------------------
(* Url-encoded forms to read: one case a step.

   valid   forms denoting a value of the type, with other pairs in between
   misfit  pairs missing, about something else, or with another value; brackets that make no sense
   garbled some bytes changed *)
EXTENDS ValueGen, Form, Json

CONSTANTS Mode, Types, Deep
VARIABLES n

TextOf(v) == IF v.t = "str" THEN v.c
             ELSE IF v.t = "int" THEN LET d == [i \in 1..Len(v.d) |-> v.d[i] + 48] IN (IF v.g THEN <<45>> ELSE IF Pct(4) THEN <<43>> ELSE <<>>) \o (IF Pct(6) THEN <<48>> ELSE <<>>) \o d
             ELSE IF v.t = "bool" THEN IF v.b THEN TextTrue ELSE TextFalse
             ELSE <<120>>
RECURSIVE Said(_, _, _)   \* <<path, text>> pairs
Said(sh, v, p) ==
  IF v.t = "st" THEN FoldLeft(LAMBDA acc, i : acc \o Said(Shapes[sh].f[i].sh, v.f[i], Append(p, Shapes[sh].f[i].dn)), <<>>, [i \in 1..Len(v.f) |-> i])
  ELSE << <<p, TextOf(v)>> >>
Insert_(s, x) == LET k == RandomElement(0..Len(s)) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Earlier(s, k, x) == LET j == RandomElement(0..(k - 1)) IN SubSeq(s, 1, j) \o <<x>> \o SubSeq(s, j + 1, Len(s))
AnyName(x) == Pick(<< <<>>, <<107>>, <<118>>, <<97>>, <<117, 115, 101, 114>>, <<97, 103, 101>>, <<109, 111, 114, 101>>, <<122>>, RText(x) >>)
AnyText(x) == IF Pct(40) THEN RText(x) ELSE IF Pct(50) THEN TextOf(RInt("u64")) ELSE Pick(<< <<49, 32>>, <<45, 49>>, <<49, 46, 48>>, <<48, 120, 49>>, <<>>, <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>> >>)
(* pairs that change nothing: repeated earlier, or about something else *)
Extra(s) ==
  IF s # <<>> /\ Pct(50) THEN LET k == RandomElement(1..Len(s)) IN Earlier(s, k, <<s[k][1], AnyText(k)>>)
  ELSE LET p == IF s # <<>> /\ Pct(60) /\ Len(s[1][1]) > 1 THEN SubSeq(s[1][1], 1, 1) \o <<<<122, 122>> \o RText(s)>> ELSE <<<<122, 122>> \o RText(s)>> \o (IF Pct(30) THEN <<AnyName(s)>> ELSE <<>>) IN
       Insert_(s, <<p, AnyText(s)>>)
Change(s) ==
  LET c == RandomElement(1..10) IN
  IF s = <<>> \/ c <= 2 THEN Insert_(s, <<Tab(RandomElement(1..3), AnyName), AnyText(s)>>)
  ELSE LET k == RandomElement(1..Len(s)) IN
    IF c <= 4 THEN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
    ELSE IF c <= 6 THEN [s EXCEPT ![k][2] = AnyText(k)]
    ELSE IF c = 7 THEN Insert_(s, <<s[k][1] \o <<AnyName(k)>>, AnyText(k)>>)
    ELSE IF c = 8 THEN Insert_(s, <<SubSeq(s[k][1], 1, RandomElement(1..Len(s[k][1]))), AnyText(k)>>)
    ELSE IF c = 9 THEN [s EXCEPT ![k][1][Len(s[k][1])] = @ \o Pick(<< <<91>>, <<93>>, <<91, 93>>, <<93, 91>>, <<32>>, <<65>> >>)]
    ELSE [s EXCEPT ![k][1] = <<AnyName(k)>> \o @]

Hx(v) == IF v < 10 THEN 48 + v ELSE IF Pct(50) THEN 55 + v ELSE 87 + v
Safe(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 46, 95, 42}
(* bytes that can stand for themselves, if need be; = can in values *)
Loose(c, inval) == c \notin {37, 38, 43} /\ (inval \/ c # 61)
Spell(cs, inval) ==
  LET how == RandomElement(1..4)
      one(c) == IF c = 32 /\ Pct(60) THEN <<43>>
                ELSE IF (how = 1 /\ Loose(c, inval)) \/ (Safe(c) /\ (how # 4 \/ Pct(60))) \/ (how = 2 /\ Loose(c, inval) /\ Pct(50)) THEN Utf8(c)
                ELSE FoldLeft(LAMBDA a, x : a \o <<37, Hx(x \div 16), Hx(x % 16)>>, <<>>, Utf8(c))
  IN FoldLeft(LAMBDA acc, c : acc \o one(c), <<>>, cs)
Bracket(o) == IF Pct(80) THEN <<o>> ELSE IF o = 91 THEN <<37, 53, Hx(11)>> ELSE <<37, 53, Hx(13)>>
KeyText(p) == Spell(p[1], FALSE) \o FoldLeft(LAMBDA acc, nm : acc \o Bracket(91) \o Spell(nm, FALSE) \o Bracket(93), <<>>, Tail(p))
PairText(e) == KeyText(e[1]) \o (IF e[2] = <<>> /\ Pct(50) THEN <<>> ELSE <<61>>) \o Spell(e[2], TRUE)
Whole(s) == (IF Pct(5) THEN <<38>> ELSE <<>>) \o Join(Tab(Len(s), LAMBDA i : PairText(s[i])), IF Pct(95) THEN <<38>> ELSE <<38, 38>>) \o (IF Pct(5) THEN <<38>> ELSE <<>>)

RECURSIVE Times(_, _, _)
Times(s, k, w) == IF k = 0 THEN s ELSE Times(IF w = "extra" THEN Extra(s) ELSE Change(s), k - 1, w)
Junk == <<0, 10, 32, 37, 38, 43, 48, 49, 53, 61, 66, 68, 91, 93, 97, 98, 100, 107, 117, 122, 127>>
(* the text has to stay UTF-8: only ASCII is touched *)
Garble(b) ==
  LET at == {k \in 1..Len(b) : b[k] < 128} IN
  IF at = {} THEN Append(b, Pick(Junk))
  ELSE LET k == RandomElement(at)  c == RandomElement(1..9) IN
    IF c <= 3 THEN SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))
    ELSE IF c <= 5 THEN SubSeq(b, 1, k - 1) \o <<Pick(Junk)>> \o SubSeq(b, k, Len(b))
    ELSE IF c <= 7 THEN [b EXCEPT ![k] = Pick(Junk)]
    ELSE IF c = 8 THEN SubSeq(b, 1, k - 1)
    ELSE SubSeq(b, 1, k) \o SubSeq(b, k, Len(b))
RECURSIVE GarbleN(_, _)
GarbleN(b, k) == IF k = 0 THEN b ELSE GarbleN(Garble(b), k - 1)

RType(x) == ShIdx(RandomElement(Types))
(* forms: the order of pairs does not matter, unless they are about the same thing *)
FormFor(sh) == LET s == Said(sh, GenV(sh, Deep), <<>>) IN Times(IF Pct(70) THEN Shuffle(s) ELSE s, Pick(<<0, 0, 1, 2, 4>>), "extra")
Case(m) ==
  LET sh == RType(m)
      s == IF K(sh) = "struct" THEN FormFor(sh) ELSE << <<<<AnyName(m)>>, AnyText(m)>> >>
      t == IF Mode = "valid" THEN s ELSE IF Pct(15) THEN FormFor(ShIdx(Pick(<<"Flat", "FormU", "Form">>))) ELSE Times(s, RandomElement(1..2), "change")
      b == IF Mode = "garbled" THEN GarbleN(Whole(IF Pct(70) THEN s ELSE t), RandomElement(1..3)) ELSE Whole(t)
  IN [k |-> "read", sh |-> sh, b |-> b]

Init == n = 0
Next == n' = n + 1 /\ PrintT(ToJson(Case(n)))
=============================================================================
