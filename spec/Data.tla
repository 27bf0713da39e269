-------------------------------- MODULE Data --------------------------------
(* What the document formats share: texts and bytes, numbers that have to fit their type, and what it
   means for a value that was read to be the one a document denotes.

   Reading a document into a type is specified by a function to one of
     [s |-> "no"]                 it has to be refused
     [s |-> "ok",  v |-> value]   it has to give that value
     [s |-> "may", v |-> value]   it may be refused, but if it gives a value, then that one
     [s |-> "any"]                not specified, except that it has to end properly
   Such a value may have leaves that are only determined by what they denote:
     [t |-> "dec2", g, d, x]      the f32 nearest to the f64 nearest to it
     [t |-> "dec", g, d, x, f]    the float of format f nearest to (-1)^g * d * 10^x  *)
EXTENDS Values, Big

No_ == [s |-> "no"]
Any_ == [s |-> "any"]
Ok_(v) == [s |-> "ok", v |-> v]
May_(v) == [s |-> "may", v |-> v]

(* several parts: a part that is refused refuses the whole *)
RECURSIVE Worst(_, _, _)
Worst(rs, i, acc) ==
  IF i > Len(rs) THEN acc
  ELSE IF rs[i].s = "no" THEN "no"
  ELSE Worst(rs, i + 1, IF rs[i].s = "any" \/ acc = "any" THEN "any" ELSE IF rs[i].s = "may" THEN "may" ELSE acc)
Both(rs, mk(_)) ==  \* rs: readings of the parts; mk: the whole, from the values of the parts
  LET w == Worst(rs, 1, "ok") IN
  IF w \in {"no", "any"} THEN [s |-> w] ELSE [s |-> w, v |-> mk([i \in 1..Len(rs) |-> rs[i].v])]
Soft(r) == IF r.s = "ok" THEN May_(r.v) ELSE r
Map1(r, mk(_)) == IF r.s \in {"no", "any"} THEN r ELSE [r EXCEPT !.v = mk(@)]

----------------------------------------------------------------------------
(* texts: sequences of codes; bytes: sequences of 0..255 *)
Utf8(c) ==
  LET lo(k) == 128 + ((c \div k) % 64) IN
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), lo(1)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), lo(64), lo(1)>>
  ELSE <<240 + (c \div 262144), lo(4096), lo(64), lo(1)>>
Ascii(cs) == \A i \in DOMAIN cs : cs[i] < 128
Utf8s(cs) == IF Ascii(cs) THEN cs ELSE FoldLeft(LAMBDA acc, c : acc \o Utf8(c), <<>>, cs)
(* the code at position i of the bytes, and how many bytes it takes; 0 if it is not well formed *)
Utf8At(b, i) ==
  LET n == Len(b)
      cont(k) == IF i + k <= n /\ b[i + k] \in 128..191 THEN b[i + k] - 128 ELSE -1
      bad == [c |-> 0, n |-> 0]
  IN IF b[i] < 128 THEN [c |-> b[i], n |-> 1]
     ELSE IF b[i] \in 194..223 THEN IF cont(1) < 0 THEN bad ELSE [c |-> (b[i] - 192) * 64 + cont(1), n |-> 2]
     ELSE IF b[i] \in 224..239 THEN
       IF cont(1) < 0 \/ cont(2) < 0 THEN bad
       ELSE LET c == (b[i] - 224) * 4096 + cont(1) * 64 + cont(2) IN
            IF c < 2048 \/ c \in 55296..57343 THEN bad ELSE [c |-> c, n |-> 3]
     ELSE IF b[i] \in 240..244 THEN
       IF cont(1) < 0 \/ cont(2) < 0 \/ cont(3) < 0 THEN bad
       ELSE LET c == (b[i] - 240) * 262144 + cont(1) * 4096 + cont(2) * 64 + cont(3) IN
            IF c < 65536 \/ c > 1114111 THEN bad ELSE [c |-> c, n |-> 4]
     ELSE bad
(* bytes as a text; [ok |-> FALSE] if they are not UTF-8 *)
Decoded(b) ==
  LET RECURSIVE D(_, _)
      D(i, acc) == IF i > Len(b) THEN [ok |-> TRUE, c |-> acc]
                   ELSE LET u == Utf8At(b, i) IN IF u.n = 0 THEN [ok |-> FALSE, c |-> <<>>] ELSE D(i + u.n, Append(acc, u.c))
  IN IF Ascii(b) THEN [ok |-> TRUE, c |-> b] ELSE D(1, <<>>)

IsDig(c) == c \in 48..57
(* drop leading zeros, keeping one digit *)
Lead(d) == LET RECURSIVE L(_)
               L(i) == IF i < Len(d) /\ d[i] = 0 THEN L(i + 1) ELSE i
           IN IF d = <<>> THEN <<0>> ELSE SubSeq(d, L(1), Len(d))
Zeros(n) == [i \in 1..n |-> 0]
Zeros48(n) == [i \in 1..n |-> 48]

----------------------------------------------------------------------------
(* numbers: (-1)^g * d * 10^x; in normal form d has no leading zeros, no trailing zeros, and zero is <<0>> * 10^0 *)
Norm(g, d, x) ==
  LET l == Lead(d)
      RECURSIVE T(_)
      T(n) == IF n > 1 /\ l[n] = 0 THEN T(n - 1) ELSE n
      k == T(Len(l))
  IN IF l = <<0>> THEN [g |-> g, d |-> l, x |-> 0] ELSE [g |-> g, d |-> SubSeq(l, 1, k), x |-> x + Len(l) - k]
IsZero(n) == n.d = <<0>>
Integral(n) == n.x >= 0
Huge(n) == n.x + Len(n.d) > 60     \* larger than any integer type
IntDigits(n) == n.d \o Zeros(n.x)

MaxDigits(s) ==
  CASE s \in {"u8", "NonZeroU8"} -> <<2,5,5>>
    [] s \in {"u16", "NonZeroU16"} -> <<6,5,5,3,5>>
    [] s \in {"u32", "NonZeroU32"} -> <<4,2,9,4,9,6,7,2,9,5>>
    [] s \in {"u64", "usize", "NonZeroU64", "NonZeroUsize"} -> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
    [] s \in {"i8", "NonZeroI8"} -> <<1,2,7>>
    [] s \in {"i16", "NonZeroI16"} -> <<3,2,7,6,7>>
    [] s \in {"i32", "NonZeroI32"} -> <<2,1,4,7,4,8,3,6,4,7>>
    [] s \in {"i64", "isize", "NonZeroI64", "NonZeroIsize"} -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
    [] s \in {"u128", "NonZeroU128"} -> ToDigits(Pred(Pow2(128)))
    [] s \in {"i128", "NonZeroI128"} -> ToDigits(Pred(Pow2(127)))
Signed(s) == s \in {"i8","i16","i32","i64","i128","isize","NonZeroI8","NonZeroI16","NonZeroI32","NonZeroI64","NonZeroI128","NonZeroIsize"}
NonZeros == {"NonZeroU8","NonZeroU16","NonZeroU32","NonZeroU64","NonZeroU128","NonZeroUsize","NonZeroI8","NonZeroI16","NonZeroI32","NonZeroI64","NonZeroI128","NonZeroIsize"}
Ints == {"u8","u16","u32","u64","u128","usize","i8","i16","i32","i64","i128","isize"} \cup NonZeros
MinDigits(s) == IF Signed(s) THEN LET m == MaxDigits(s) IN [m EXCEPT ![Len(m)] = @ + 1] ELSE <<0>>  \* they all end in 7
Scalar(sh) == IF K(sh) = "scalar" THEN Shapes[sh].s ELSE "none"

(* an integer read into a position of scalar type s *)
ReadInt(s, n) ==
  IF ~Integral(n) \/ Huge(n) THEN No_
  ELSE LET d == IntDigits(n) IN
       IF IsZero(n) THEN IF s \in NonZeros THEN No_ ELSE Ok_([t |-> "int", g |-> FALSE, d |-> <<0>>])
       ELSE IF n.g THEN IF DigLe(d, MinDigits(s)) THEN Ok_([t |-> "int", g |-> TRUE, d |-> d]) ELSE No_
       ELSE IF DigLe(d, MaxDigits(s)) THEN Ok_([t |-> "int", g |-> FALSE, d |-> d]) ELSE No_

Format(s) == IF s = "f32" THEN F32 ELSE F64
Frac(n) == IF n.x >= 0 THEN [a |-> Mul(FromDigits(n.d), Pow10(n.x)), b |-> <<1>>] ELSE [a |-> FromDigits(n.d), b |-> Pow10(0 - n.x)]
DecTooLarge(s, n) ==
  IF IsZero(n) \/ n.x + Len(n.d) < 30 THEN FALSE ELSE IF n.x + Len(n.d) > 320 THEN TRUE
  ELSE LET f == Frac(n) IN TooLarge(Format(s), f.a, f.b)
Dec(s, n) == [t |-> "dec", g |-> n.g, d |-> n.d, x |-> n.x, f |-> s]
ReadFloat(s, n) == IF DecTooLarge(s, n) THEN No_ ELSE Ok_(Dec(s, n))

(* is the float v the one nearest to (-1)^g * d * 10^x? *)
Nearest(dec, v) ==
  /\ v.t = "flt" /\ v.c = "fin" /\ v.g = dec.g
  /\ IF dec.d = <<0>> THEN v.m = <<0>>
     ELSE IF dec.x + Len(dec.d) < -340 THEN v.m = <<0>>
     ELSE LET f == Frac(dec) IN RoundsTo(Format(dec.f), f.a, f.b, FromDigits(v.m), v.e)

(* is the f32 v the one nearest to an f64 that is nearest to (-1)^g * d * 10^x? (up to what that f64 is, which
   differs from the number by less than one part in 2^53) *)
NearestTwice(dec, v) ==
  /\ v.t = "flt" /\ v.c = "fin" /\ v.g = dec.g
  /\ IF dec.d = <<0>> \/ dec.x + Len(dec.d) < -60 THEN v.m = <<0>>
     ELSE LET f == Frac(dec)
              to(k) == RoundsTo(F32, Mul(f.a, k), Mul(f.b, Pow2(53)), FromDigits(v.m), v.e)
          IN to(Pow2(53)) \/ to(Pred(Pow2(53))) \/ to(Add(Pow2(53), <<1>>))

(* does the value v have what the reading r denotes? *)
RECURSIVE Fits(_, _)
Fits(r, v) ==
  CASE r.t = "dec" -> Nearest(r, v)
    [] r.t = "dec2" -> NearestTwice(r, v)
    [] r.t = "dontcare" -> TRUE
    [] OTHER ->
       /\ r.t = v.t
       /\ CASE r.t \in {"some", "arc"} -> Fits(r.x, v.x)
            [] r.t \in {"list", "arr"} -> Len(r.e) = Len(v.e) /\ \A i \in 1..Len(r.e) : Fits(r.e[i], v.e[i])
            [] r.t \in {"st", "en"} -> /\ Len(r.f) = Len(v.f)
                                       /\ r.t = "en" => r.i = v.i
                                       /\ \A i \in 1..Len(r.f) : Fits(r.f[i], v.f[i])
            [] r.t = "map" -> /\ Len(r.e) = Len(v.e)
                              /\ \A i \in 1..Len(r.e) : \E j \in 1..Len(v.e) : Fits(r.e[i][1], v.e[j][1]) /\ Fits(r.e[i][2], v.e[j][2])
            [] OTHER -> r = v
(* the outcome of reading: out.r = 1 with a value out.v, or 0 *)
Agrees(r, out) ==
  CASE r.s = "any" -> TRUE
    [] r.s = "no" -> out.r = 0
    [] r.s = "ok" -> out.r = 1 /\ Fits(r.v, out.v)
    [] r.s = "may" -> out.r = 1 => Fits(r.v, out.v)

----------------------------------------------------------------------------
(* what the types' own parsers take, for texts that only have digits, signs, points and letters *)
NumberOf(c) ==  \* [+-]?digits as a number, or No
  LET sg == Len(c) > 0 /\ c[1] \in {43, 45}
      ds == IF sg THEN Tail(c) ELSE c
  IN IF ds = <<>> \/ \E i \in 1..Len(ds) : ~IsDig(ds[i]) THEN No
     ELSE [t |-> "n"] @@ Norm(sg /\ c[1] = 45, [i \in 1..Len(ds) |-> ds[i] - 48], 0)
(* a float literal: sign, digits with an optional point somewhere, optional exponent *)
FloatOf(c) ==
  LET n == Len(c)
      i0 == IF n > 0 /\ c[1] \in {43, 45} THEN 2 ELSE 1
      RECURSIVE Run(_)
      Run(i) == IF i <= n /\ IsDig(c[i]) THEN Run(i + 1) ELSE i
      i1 == Run(i0)
      pt == i1 <= n /\ c[i1] = 46
      i2 == IF pt THEN Run(i1 + 1) ELSE i1
      ds == [k \in 1..(i1 - i0) |-> c[i0 + k - 1] - 48] \o (IF pt THEN [k \in 1..(i2 - i1 - 1) |-> c[i1 + k] - 48] ELSE <<>>)
      fr == IF pt THEN i2 - i1 - 1 ELSE 0
      ex == i2 <= n /\ c[i2] \in {69, 101}
      es == ex /\ i2 + 1 <= n /\ c[i2 + 1] \in {43, 45}
      i3 == IF ex THEN (IF es THEN i2 + 2 ELSE i2 + 1) ELSE i2
      i4 == IF ex THEN Run(i3) ELSE i2
      ed == Lead([k \in 1..(i4 - i3) |-> c[i3 + k - 1] - 48])
      ev == IF Len(ed) > 6 THEN 999999 ELSE FoldLeft(LAMBDA a, d : a * 10 + d, 0, ed)
  IN IF ds = <<>> \/ (ex /\ i4 = i3) \/ i4 # n + 1 THEN No
     ELSE [t |-> "n"] @@ Norm(i0 = 2 /\ c[1] = 45, ds, (IF ex THEN (IF es /\ c[i2 + 1] = 45 THEN 0 - ev ELSE ev) ELSE 0) - fr)
TextTrue == <<116, 114, 117, 101>>
TextFalse == <<102, 97, 108, 115, 101>>
FromText(sh, c) ==
  LET s == Scalar(sh) IN
  CASE s = "String" -> Ok_(Str(c))
    [] s = "bool" -> IF c = TextTrue THEN Ok_(Bool(TRUE)) ELSE IF c = TextFalse THEN Ok_(Bool(FALSE)) ELSE No_
    [] s = "char" -> IF Len(c) = 1 THEN Ok_([t |-> "chr", u |-> c[1]]) ELSE No_
    [] s \in Ints -> LET n == NumberOf(c) IN
         IF IsNo(n) THEN No_ ELSE IF n.g /\ ~Signed(s) THEN No_ ELSE ReadInt(s, n)
    [] s \in {"f32", "f64"} -> LET n == FloatOf(c) IN
         IF IsNo(n) THEN Any_ ELSE IF DecTooLarge(s, n) THEN Any_ ELSE Ok_(Dec(s, n))
    [] OTHER -> No_

----------------------------------------------------------------------------
(* defaults declared for fields and types *)
DefText(cs) == Str(cs)
DefOf(fd) ==
  CASE fd.def = "own" -> DefaultOf(fd.sh)
    [] fd.def = "mk_text" -> Str(<<100, 102, 108, 116>>)
    [] fd.def = "mk_list" -> List(<<Num(1), Num(2)>>)
WholeDefault(sh) == DefaultOf(sh)
=============================================================================
