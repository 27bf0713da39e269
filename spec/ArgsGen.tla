------------------------------- MODULE ArgsGen -------------------------------
(* Argument lists: one case a step. valid: for a value of the type, in random order; misfit: with a few changes. *)
EXTENDS ValueGen, Args, Json
CONSTANTS Mode, Types, Deep
VARIABLES n

FltText(v) == IF v.c # "fin" THEN <<49>> ELSE LET d == [i \in 1..Len(v.m) |-> v.m[i] + 48] IN (IF v.g THEN <<45>> ELSE <<>>) \o d \o (IF Pct(50) THEN <<46, 53>> ELSE <<>>) \o (IF Pct(30) THEN <<101, 45, 49, 50>> ELSE <<>>)
Cased(c) == IF Pct(80) THEN c ELSE Tab(Len(c), LAMBDA i : IF Pct(50) THEN c[i] - 32 ELSE c[i])
TextOf(v) ==
  CASE v.t = "str" -> v.c
    [] v.t = "int" -> LET d == [i \in 1..Len(v.d) |-> v.d[i] + 48] IN (IF v.g THEN <<45>> ELSE IF Pct(4) THEN <<43>> ELSE <<>>) \o (IF Pct(6) THEN <<48>> ELSE <<>>) \o d
    [] v.t = "bool" -> Cased(IF v.b THEN TextTrue ELSE TextFalse)
    [] v.t = "chr" -> <<v.u>>
    [] v.t = "flt" -> FltText(v)
    [] OTHER -> <<120>>
Dashes(nm) == <<45, 45>> \o nm
(* the groups of arguments for the fields: named ones can go anywhere; the positional ones stay in order *)
RECURSIVE Groups(_, _, _), Weave(_, _)
Groups(sh, v, i) ==   \* [named |-> groups, pos |-> groups, first |-> groups]
  IF i > Len(v.f) THEN [named |-> <<>>, pos |-> <<>>, first |-> <<>>]
  ELSE LET rest == Groups(sh, v, i + 1)  fd == Shapes[sh].f[i]
           grp == IF v.f[i].t = "bool" THEN <<Dashes(fd.dn)>> ELSE <<Dashes(fd.dn), TextOf(v.f[i])>>
       IN IF fd.pos /\ (~fd.long \/ Pct(60)) THEN [rest EXCEPT !.pos = <<<<TextOf(v.f[i])>>>> \o @]
          ELSE IF v.f[i].t = "bool" /\ ~v.f[i].b /\ Pct(80) THEN rest
          ELSE IF fd.pos /\ Pct(90) THEN [rest EXCEPT !.first = <<grp>> \o @]
          ELSE [rest EXCEPT !.named = <<grp>> \o @]
Weave(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF Pct(50) THEN <<Head(a)>> \o Weave(Tail(a), b) ELSE <<Head(b)>> \o Weave(a, Tail(b))
For(sh) == LET v == GenV(sh, Deep)
               \* flags mostly given
               w == [v EXCEPT !.f = Tab(Len(@), LAMBDA i : IF v.f[i].t = "bool" /\ ~Shapes[sh].f[i].pos THEN Bool(Pct(85)) ELSE v.f[i])]
               g == Groups(sh, w, 1)
           IN Concat(g.first \o Weave(Shuffle(g.named), g.pos))
Word(sh) == LET c == RandomElement(1..12)  fs == Shapes[sh].f  f == Pick(fs) IN
  CASE c <= 4 -> Dashes(f.dn) [] c = 5 -> Dashes(f.dn \o <<122>>) [] c = 6 -> Dashes(<<>>) [] c = 7 -> <<45>> \o SubSeq(f.dn, 1, 1)
    [] c = 8 -> Dashes(f.dn) \o <<61, 49>> [] c = 9 -> RText(sh) [] c = 10 -> Pick(<< <<49, 48>>, <<45, 53>>, <<50, 53, 54>>, <<45>>, TextTrue, <<84, 82, 85, 69>>, <<121, 101, 115>>, <<49, 46, 53>>, <<48>>, <<>> >>)
    [] c = 11 -> Dashes(Pick(<< <<110, 111, 45>>, <<45>>, <<104, 101, 108, 112>> >>) \o f.dn) [] OTHER -> f.dn
Change(sh, a) ==
  LET c == RandomElement(1..8) IN
  IF a = <<>> \/ c <= 3 THEN LET k == RandomElement(0..Len(a)) IN SubSeq(a, 1, k) \o <<Word(sh)>> \o SubSeq(a, k + 1, Len(a))
  ELSE LET k == RandomElement(1..Len(a)) IN
    IF c = 4 THEN SubSeq(a, 1, k - 1) \o SubSeq(a, k + 1, Len(a))
    ELSE IF c = 5 THEN [a EXCEPT ![k] = Word(sh)]
    ELSE IF c = 6 THEN SubSeq(a, 1, k) \o SubSeq(a, k, Len(a))
    ELSE IF c = 7 THEN [a EXCEPT ![k] = IF @ = <<>> THEN <<32>> ELSE IF Pct(50) THEN Append(@, 32) ELSE SubSeq(@, 2, Len(@))]
    ELSE Shuffle(a)
RType(x) == ShIdx(RandomElement(Types))
Case(m) == LET sh == RType(m)  a == For(sh) IN
  [k |-> "read", sh |-> sh, a |-> IF Mode = "valid" THEN a ELSE IF Pct(60) THEN Change(sh, a) ELSE Change(sh, Change(sh, a))]
Init == n = 0
Next == n' = n + 1 /\ PrintT(ToJson(Case(n)))
=============================================================================
