------------------------------- MODULE PutNum -------------------------------
(* Putting a 64-bit float into a numeric position: which values the position may hold afterwards. *)
EXTENDS Data

Numeric(sh) == K(sh) = "scalar" /\ (Shapes[sh].s \in Ints \/ Shapes[sh].s \in {"f32", "f64"})
(* the float as a fraction, exactly *)
Exact(x) == IF x.e >= 0 THEN [a |-> Mul(FromDigits(x.m), Pow2(x.e)), b |-> <<1>>] ELSE [a |-> FromDigits(x.m), b |-> Pow2(0 - x.e)]
Zero_(x) == x.m = <<0>>
IntOf(s, x) ==  \* into an integer type
  IF x.c # "fin" THEN No_
  ELSE IF Zero_(x) THEN ReadInt(s, Norm(FALSE, <<0>>, 0))
  ELSE IF x.e < 0 THEN No_       \* the significand is odd
  ELSE IF x.e > 140 THEN No_
  ELSE ReadInt(s, Norm(x.g, ToDigits(Exact(x).a), 0))

(* is the float v the f32 nearest to x? *)
Narrowed(x, v) ==
  /\ v.t = "flt" /\ (v.g = x.g \/ x.c = "nan")
  /\ v.c = x.c
  /\ x.c = "fin" => IF Zero_(x) THEN Zero_(v) ELSE LET f == Exact(x) IN RoundsTo(F32, f.a, f.b, FromDigits(v.m), v.e)
MaxF32 == [a |-> Mul(Pred(Pow2(24)), Pow2(104)), b |-> <<1>>]
Beyond(x) ==  \* larger in absolute value than every f32
  ~Zero_(x) /\ (x.e > 128 \/ (x.e > 0 /\ Cmp(Exact(x).a, MaxF32.a) > 0))
TooBig(x) == x.e > 128 \/ (x.e > 0 /\ LET f == Exact(x) IN TooLarge(F32, f.a, f.b))

(* out: [r |-> 0], or [r |-> 1, v |-> the value then stored] *)
Allowed(sh, x, out) ==
  IF ~Numeric(sh) THEN out.r = 0
  ELSE LET s == Shapes[sh].s IN
    IF s \in {"u128", "i128"} THEN out.r = 0 \/ Agrees(IntOf(s, x), out)
    ELSE IF s \in Ints THEN Agrees(IntOf(s, x), out)
    ELSE IF s = "f64" THEN out.r = 1 /\ (out.v = x \/ (x.c = "nan" /\ out.v.t = "flt" /\ out.v.c = "nan"))
    ELSE IF x.c # "fin" THEN out.r = 1 => Narrowed(x, out.v)
    ELSE IF TooBig(x) THEN out.r = 0
    ELSE IF Beyond(x) THEN out.r = 1 => Narrowed(x, out.v)
    ELSE out.r = 1 /\ Narrowed(x, out.v)
=============================================================================
