------------------------------ MODULE ValueGen ------------------------------
(* Random values of the types, and random texts and numbers, inclined towards the corners. *)
EXTENDS Data

Pct(p) == RandomElement(1..100) <= p
Pick(seq) == seq[RandomElement(1..Len(seq))]
(* TLC evaluates operators without parameters once, and the entries of functions whenever they are
   used: so what is random has a parameter, and is put into sequences one by one *)
Tab(n, f(_)) == FoldLeft(LAMBDA acc, i : Append(acc, f(i)), <<>>, [i \in 1..n |-> i])
RDigits(n) == Tab(n, LAMBDA i : RandomElement(0..9))

(* codes worth having in a text *)
Codes == <<0, 1, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 33, 34, 35, 37, 38, 39, 43, 44, 46, 47, 48, 57, 58, 60, 61, 65, 70, 90, 91, 92, 93, 95, 97, 98, 102,
           110, 114, 116, 117, 122, 123, 125, 126, 127, 128, 133, 159, 160, 233, 255, 256, 955, 2047, 2048, 8217, 8232, 8233, 12354, 55295, 57344, 65279, 65533, 65535,
           65536, 128512, 1114111>>
RCode(x) == IF Pct(55) THEN RandomElement(97..122) ELSE Pick(Codes)
RText(x) == LET n == IF Pct(12) THEN 0 ELSE IF Pct(85) THEN RandomElement(1..6) ELSE RandomElement(7..40) IN Tab(n, RCode)

(* the digits of a natural no larger than max *)
RNat(max) ==
  LET c == RandomElement(1..10) IN
  IF c <= 2 THEN <<0>> ELSE IF c = 3 THEN <<1>> ELSE IF c <= 5 THEN max
  ELSE IF c = 6 THEN ToDigits(Pred(FromDigits(max)))
  ELSE LET n == RandomElement(1..Len(max))
           d == Lead(RDigits(n)) IN IF DigLe(d, max) THEN d ELSE max
RInt(s) ==
  LET g == Signed(s) /\ Pct(45)
      d0 == RNat(IF g THEN MinDigits(s) ELSE MaxDigits(s))
      d == IF d0 = <<0>> /\ s \in NonZeros THEN <<1>> ELSE d0
  IN [t |-> "int", g |-> g /\ d # <<0>>, d |-> d]

(* a finite float of the format, with odd significand *)
RECURSIVE Odd(_, _)
Odd(m, e) == IF m = <<>> THEN [m |-> <<0>>, e |-> 0]
             ELSE IF m[1] % 2 = 1 THEN [m |-> ToDigits(m), e |-> e]
             ELSE LET h == MulSmall(m, 5000) IN Odd(Tail(h), e + 1)   \* m / 2, as m is even
RFloat(s) ==
  LET f == Format(s)
      c == RandomElement(1..12)
      bits == RandomElement(1..f.p)
      m0 == FromDigits(Lead(RDigits(17)))
      RECURSIVE Cut(_)
      Cut(x) == IF Cmp(x, Pow2(bits)) < 0 THEN x ELSE Cut(Tail(MulSmall(IF x[1] % 2 = 1 THEN Pred(x) ELSE x, 5000)))
      fin(m, e) == LET o == Odd(m, e) IN [t |-> "flt", c |-> "fin", g |-> Pct(40), m |-> o.m, e |-> o.e]
  IN IF c = 1 THEN fin(<<>>, 0)
     ELSE IF c = 2 THEN fin(Pred(Pow2(f.p)), f.top)
     ELSE IF c = 3 THEN fin(<<1>>, f.q)
     ELSE IF c = 4 THEN fin(Pow2(f.p - 1), f.q)
     ELSE IF c = 5 THEN fin(Pred(Pow2(f.p - 1)), f.q)
     ELSE IF c = 6 THEN fin(OfInt(RandomElement(1..1000)), 0)
     ELSE IF c = 7 THEN fin(OfInt(RandomElement(1..1000)), 0 - RandomElement(1..10))
     ELSE IF c = 8 THEN fin(<<1>>, RandomElement(f.q..(f.top + f.p - 1)))
     ELSE IF c <= 10 THEN fin(Cut(m0), RandomElement((0 - 30)..30))
     ELSE fin(Cut(m0), RandomElement(f.q..f.top))

(* paths: parts and slashes *)
RPath(x) == IF Pct(20) THEN RText(x) ELSE LET p == Tab(RandomElement(0..6), LAMBDA i : Pick(<< <<47>>, <<47>>, <<47>>, <<46>>, <<46, 46>>, <<97>>, <<98>>, <<233>>, <<45>> >>)) IN Concat(p)
RIp(s) ==
  IF s = "Ipv4Addr" \/ (s = "IpAddr" /\ Pct(50))
  THEN Ip(IF Pct(30) THEN Pick(<< <<0, 0, 0, 0>>, <<127, 0, 0, 1>>, <<255, 255, 255, 255>> >>) ELSE Tab(4, LAMBDA i : RandomElement(0..255)))
  ELSE Ip(IF Pct(30) THEN Pick(<< [i \in 1..16 |-> 0], [i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0], [i \in 1..16 |-> IF i \in {11, 12} THEN 255 ELSE IF i > 12 THEN 9 ELSE 0] >>)
          ELSE LET z == RandomElement(1..16) IN Tab(16, LAMBDA i : IF i >= z /\ i < z + 6 THEN 0 ELSE RandomElement(0..255)))

(* any value; depth limits recursive types *)
RECURSIVE GenV(_, _), GenList(_, _, _), GenFields(_, _), GenPairs(_, _, _, _)
GenList(sh, n, depth) == IF n = 0 THEN <<>> ELSE Append(GenList(sh, n - 1, depth), GenV(sh, depth))
GenFields(fs, depth) == IF fs = <<>> THEN <<>> ELSE <<GenV(Head(fs).sh, depth)>> \o GenFields(Tail(fs), depth)
GenPairs(kt, vt, n, depth) ==
  IF n = 0 THEN <<>>
  ELSE LET rest == GenPairs(kt, vt, n - 1, depth)
           k == GenV(kt, depth)
       IN IF \E i \in 1..Len(rest) : rest[i][1] = k THEN rest ELSE Append(rest, <<k, GenV(vt, depth)>>)
GenV(sh, depth) ==
  LET S == Shapes[sh] IN
  CASE K(sh) = "scalar" ->
         LET s == S.s IN
         CASE s = "unit" -> [t |-> "unit"]
           [] s = "bool" -> Bool(Pct(50))
           [] s = "char" -> [t |-> "chr", u |-> RCode(s)]
           [] s = "String" -> Str(RText(s))
           [] s = "Tk" -> Tk(0)
           [] s \in {"f32", "f64"} -> RFloat(s)
           [] s \in {"Str", "CowStr"} -> Str(RText(s))
           [] s \in {"PathBuf", "PathRef"} -> Str(RPath(s))
           [] s \in Nothings -> [t |-> "unit"]
           [] s \in {"Ipv4Addr", "Ipv6Addr", "IpAddr"} -> RIp(s)
           [] s = "SocketAddr" -> LET a == RIp("IpAddr") IN
                [t |-> "sock", ip |-> a, p |-> Pick(<<0, 1, 80, 8080, 65535>>), z |-> IF a.n = 6 /\ Pct(30) THEN RandomElement(1..9) ELSE 0]
           [] OTHER -> RInt(s)
    [] K(sh) = "weak" -> Dangling
    [] K(sh) = "opaque" -> [t |-> "arc", x |-> Tk(0)]
    [] K(sh) = "slice" -> List(GenList(S.t, IF depth = 0 \/ Pct(25) THEN 0 ELSE RandomElement(1..3), depth - 1))
    [] K(sh) = "list" -> List(GenList(S.t, IF depth = 0 \/ Pct(25) THEN 0 ELSE RandomElement(1..3), depth - 1))
    [] K(sh) = "array" -> [t |-> "arr", e |-> GenList(S.t, S.n, depth)]
    [] K(sh) = "map" -> Map(GenPairs(S.kt, S.vt, IF depth = 0 \/ Pct(25) THEN 0 ELSE RandomElement(1..3), depth - 1))
    [] K(sh) = "option" -> IF depth = 0 \/ Pct(35) THEN None ELSE Some(GenV(S.t, depth - 1))
    [] K(sh) = "arc" -> [t |-> "arc", x |-> GenV(S.t, depth)]
    [] K(sh) = "struct" -> [t |-> "st", f |-> GenFields(S.f, depth)]
    [] K(sh) = "enum" -> LET i == RandomElement(1..Len(S.vs)) IN
         [t |-> "en", i |-> i, f |-> GenFields(S.vs[i].f, depth)]

(* a sequence in random order *)
RECURSIVE Shuffle(_)
Shuffle(s) == IF Len(s) <= 1 THEN s
              ELSE LET k == RandomElement(1..Len(s)) IN <<s[k]>> \o Shuffle(SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)))
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

(* garbling a sequence of bytes *)
Garbage == <<0, 9, 10, 32, 34, 35, 39, 43, 44, 45, 46, 47, 48, 49, 57, 58, 61, 69, 91, 92, 93, 95, 97, 101, 102, 110, 116, 117, 123, 125, 127, 128, 191, 194, 224, 237, 240, 255>>
Garble1(b) ==
  IF b = <<>> THEN <<Pick(Garbage)>>
  ELSE LET k == RandomElement(1..Len(b))  c == RandomElement(1..10) IN
    IF c <= 3 THEN SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))                  \* remove
    ELSE IF c <= 5 THEN SubSeq(b, 1, k) \o <<Pick(Garbage)>> \o SubSeq(b, k + 1, Len(b)) \* insert
    ELSE IF c <= 7 THEN [b EXCEPT ![k] = Pick(Garbage)]                             \* replace
    ELSE IF c = 8 THEN SubSeq(b, 1, k - 1)                                          \* truncate
    ELSE IF c = 9 THEN SubSeq(b, 1, k) \o SubSeq(b, k, Len(b))                      \* repeat
    ELSE b \o <<Pick(Garbage)>>                                                     \* trail
=============================================================================
