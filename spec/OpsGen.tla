------------------------------- MODULE OpsGen -------------------------------
(* Pairs of values to be compared, and texts to be parsed. *)
EXTENDS ValueGen, Json
CONSTANTS Types, Deep
VARIABLES n

(* floats that are not numbers, and zeros of both signs *)
Special(x) == Pick(<< [t |-> "flt", c |-> "nan", g |-> FALSE, m |-> <<0>>, e |-> 0], [t |-> "flt", c |-> "inf", g |-> FALSE, m |-> <<0>>, e |-> 0],
                      [t |-> "flt", c |-> "inf", g |-> TRUE, m |-> <<0>>, e |-> 0], [t |-> "flt", c |-> "fin", g |-> TRUE, m |-> <<0>>, e |-> 0],
                      [t |-> "flt", c |-> "fin", g |-> FALSE, m |-> <<0>>, e |-> 0] >>)
RECURSIVE Spice(_)
Spice(v) ==
  CASE v.t = "flt" -> IF Pct(30) THEN Special(v) ELSE v
    [] v.t \in {"some", "arc"} -> [v EXCEPT !.x = Spice(v.x)]
    [] v.t \in {"list", "arr"} -> [v EXCEPT !.e = Tab(Len(v.e), LAMBDA i : Spice(v.e[i]))]
    [] v.t = "map" -> [v EXCEPT !.e = Tab(Len(v.e), LAMBDA i : <<v.e[i][1], Spice(v.e[i][2])>>)]
    [] v.t \in {"st", "en"} -> [v EXCEPT !.f = Tab(Len(v.f), LAMBDA i : Spice(v.f[i]))]
    [] OTHER -> v

(* changed in one place *)
RECURSIVE Mut(_, _, _)
MutAt(s, i, x) == [s EXCEPT ![i] = x]
Mut(sh, v, dp) ==
  LET S == Shapes[sh]
      some(k) == RandomElement(1..k)
      infields(fs) == LET i == some(Len(fs)) IN [v EXCEPT !.f = MutAt(@, i, Mut(fs[i].sh, v.f[i], dp))]
      inlist(t) == LET i == some(Len(v.e)) IN [v EXCEPT !.e = MutAt(@, i, Mut(t, v.e[i], dp))]
  IN CASE K(sh) = "struct" -> IF Len(S.f) = 0 THEN v ELSE infields(S.f)
       [] K(sh) = "enum" -> IF Pct(30) \/ Len(v.f) = 0 THEN GenV(sh, dp) ELSE infields(S.vs[v.i].f)
       [] K(sh) = "array" -> IF S.n = 0 THEN v ELSE inlist(S.t)
       [] K(sh) \in {"list", "slice"} -> LET k == some(10) IN
            IF k <= 2 \/ Len(v.e) = 0 THEN [v EXCEPT !.e = Append(@, GenV(S.t, dp))]
            ELSE IF k <= 4 THEN [v EXCEPT !.e = SubSeq(@, 1, Len(@) - 1)]
            ELSE IF k = 5 THEN [v EXCEPT !.e = Tail(@)]
            ELSE IF k = 6 THEN [v EXCEPT !.e = Shuffle(@)]
            ELSE inlist(S.t)
       [] K(sh) = "map" -> LET k == some(10) IN
            IF Len(v.e) = 0 THEN GenV(sh, dp)
            ELSE IF k <= 2 THEN [v EXCEPT !.e = Tail(@)]
            ELSE IF k <= 5 THEN [v EXCEPT !.e = Shuffle(@)]
            ELSE IF k <= 8 THEN LET i == some(Len(v.e)) IN [v EXCEPT !.e = MutAt(@, i, <<v.e[i][1], Mut(S.vt, v.e[i][2], dp)>>)]
            ELSE LET i == some(Len(v.e))  key == GenV(S.kt, dp) IN
                 IF \E j \in 1..Len(v.e) : v.e[j][1] = key THEN v ELSE [v EXCEPT !.e = MutAt(@, i, <<key, v.e[i][2]>>)]
       [] K(sh) = "option" -> IF v.t = "none" THEN Some(GenV(S.t, dp)) ELSE IF Pct(25) THEN None ELSE [v EXCEPT !.x = Mut(S.t, v.x, dp)]
       [] K(sh) = "arc" -> [v EXCEPT !.x = Mut(S.t, v.x, dp)]
       [] K(sh) = "scalar" ->
            IF S.s \in {"String", "Str", "CowStr", "PathBuf", "PathRef"} THEN LET k == some(10) IN
                 IF k <= 4 \/ Len(v.c) = 0 THEN [v EXCEPT !.c = Append(@, IF S.s \in {"PathBuf", "PathRef"} THEN Pick(<<46, 47>>) ELSE RCode(k))]
                 ELSE IF k <= 6 THEN [v EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)]
                 ELSE LET i == some(Len(v.c)) IN [v EXCEPT !.c = MutAt(@, i, RCode(k))]
            ELSE IF S.s \in {"f32", "f64"} THEN (IF v.c # "nan" /\ Pct(60) THEN [v EXCEPT !.g = ~@] ELSE GenV(sh, dp))
            ELSE IF S.s \in Ints /\ Signed(S.s) /\ Pct(40) /\ v.d # <<0>> THEN [v EXCEPT !.g = IF v.d = MinDigits(S.s) THEN @ ELSE ~@]
            ELSE IF v.t = "sock" /\ Pct(60) THEN (IF v.ip.n = 6 /\ Pct(50) THEN [v EXCEPT !.z = RandomElement(0..3)] ELSE [v EXCEPT !.p = Pick(<<0, 1, 256, 65535>>)])
            ELSE IF v.t = "ip" /\ Pct(60) THEN LET i == some(Len(v.o)) IN [v EXCEPT !.o = MutAt(@, i, RandomElement(0..255))]
            ELSE GenV(sh, dp)
       [] OTHER -> v

(* texts for parsers, near the values' own *)
DigitText(d) == [i \in 1..Len(d) |-> d[i] + 48]
Words == << <<>>, <<43>>, <<45>>, <<48>>, <<45, 48>>, <<43, 48>>, <<55>>, <<32, 55>>, <<55, 32>>, <<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<84, 114, 117, 101>>,
            <<110, 97, 110>>, <<105, 110, 102>>, <<45, 105, 110, 102>>, <<46>>, <<46, 53>>, <<53, 46>>, <<49, 101, 51>>, <<49, 69, 45, 51>>, <<48, 120, 49>>, <<49, 95, 48>>,
            <<97>>, <<128512>>, <<97, 98>>, <<49, 50, 55, 46, 48, 46, 48, 46, 49>>, <<58, 58, 49>>, <<91, 58, 58, 49, 93, 58, 56, 48>>, <<49, 46, 50, 46, 51, 46, 52, 58, 57>>, <<256, 46>>, <<40, 41>> >>
RECURSIVE Leaf(_)
Leaf(sh) == IF K(sh) = "option" THEN Leaf(Shapes[sh].t) ELSE Scalar(sh)
NumText(s) ==
  LET d == IF Pct(50) THEN MaxDigits(s) ELSE IF Pct(50) THEN MinDigits(s) ELSE RDigits(RandomElement(1..(Len(MaxDigits(s)) + 1)))
      e == IF Pct(40) THEN ToDigits(Add(FromDigits(Lead(d)), <<1>>)) ELSE d
      z == IF Pct(20) THEN <<48, 48>> ELSE <<>>
  IN Pick(<< <<>>, <<45>>, <<45>>, <<43>> >>) \o z \o DigitText(e)
OneText(sh) ==
  LET s == Leaf(sh)  k == RandomElement(1..10) IN
  IF s \in Ints /\ k <= 6 THEN NumText(s)
  ELSE IF s \in Ints /\ k = 7 THEN Garble1(NumText(s))
  ELSE IF s \in {"f32", "f64"} /\ k <= 4 THEN NumText("u64") \o (IF Pct(50) THEN <<46>> \o DigitText(RDigits(3)) ELSE <<>>) \o (IF Pct(50) THEN <<101>> \o Pick(<< <<45>>, <<>> >>) \o DigitText(RDigits(2)) ELSE <<>>)
  ELSE IF k = 8 THEN RText(s)
  ELSE IF k = 9 /\ s \in {"PathBuf"} THEN RPath(s)
  ELSE Pick(Words)

RType(x) == ShIdx(RandomElement(Types))
Case(m) ==
  LET sh == RType(m)
      v == Spice(GenV(sh, Deep))
      c == RandomElement(1..100)
      w == IF c <= 25 THEN v ELSE IF c <= 70 THEN Mut(sh, v, Deep) ELSE IF c <= 80 THEN Mut(sh, Mut(sh, v, Deep), Deep) ELSE Spice(GenV(sh, Deep))
  IN [k |-> "ops", sh |-> sh, v |-> v, w |-> w, parse |-> IF "FromStr" \in Shapes[sh].traits \/ K(sh) = "option" THEN Tab(4, LAMBDA i : OneText(sh)) ELSE <<>>]
Init == n = 0
Next == n' = n + 1 /\ PrintT(ToJson(Case(n)))
=============================================================================
