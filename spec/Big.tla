--------------------------------- MODULE Big ---------------------------------
(* Exact arithmetic on naturals of any size, which TLC's integers are too small for: what numbers in
   documents denote, and what it means to round one to a float.

   A natural is the sequence of its limbs, base 10000, least significant first, without leading zero
   limbs: zero is <<>>. Digits are sequences of decimal digits, most significant first. *)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Base == 10000

Trim(a) ==  \* drop leading zero limbs
  LET RECURSIVE T(_)
      T(n) == IF n > 0 /\ a[n] = 0 THEN T(n - 1) ELSE n
  IN SubSeq(a, 1, T(Len(a)))

MulSmall(a, n) ==
  LET step(acc, x) == LET t == x * n + acc[2] IN <<Append(acc[1], t % Base), t \div Base>>
      r == FoldLeft(step, <<<<>>, 0>>, a)
  IN IF n = 0 THEN <<>>
     ELSE IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])   \* n <= Base, so that the carry is one limb

Add(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      at(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
      step(acc, i) == LET t == at(a, i) + at(b, i) + acc[2] IN <<Append(acc[1], t % Base), t \div Base>>
      r == FoldLeft(step, <<<<>>, 0>>, [i \in 1..n |-> i])
  IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])

Mul(a, b) ==
  LET step(acc, x) == LET sh == IF acc = <<>> THEN <<>> ELSE <<0>> \o acc IN Add(sh, MulSmall(a, x))
  IN Trim(FoldLeft(step, <<>>, Reverse(b)))

(* -1, 0, 1 *)
Cmp(a, b) ==
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
  ELSE LET RECURSIVE C(_)
           C(i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN IF a[i] < b[i] THEN -1 ELSE 1 ELSE C(i - 1)
       IN C(Len(a))

(* a - 1, for a > 0 *)
Pred(a) ==
  LET RECURSIVE D(_, _)
      D(s, i) == IF s[i] > 0 THEN [s EXCEPT ![i] = @ - 1] ELSE D([s EXCEPT ![i] = Base - 1], i + 1)
  IN Trim(D(a, 1))

(* a - b, for a >= b *)
Sub(a, b) ==
  LET at(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
      step(acc, i) == LET t == a[i] - at(b, i) - acc[2] IN IF t < 0 THEN <<Append(acc[1], t + Base), 1>> ELSE <<Append(acc[1], t), 0>>
  IN Trim(FoldLeft(step, <<<<>>, 0>>, [i \in 1..Len(a) |-> i])[1])

(* quotient and remainder of the division by a small number *)
DivSmall(a, n) ==
  LET step(acc, x) == LET t == acc[2] * Base + x IN <<Append(acc[1], t \div n), t % n>>
      r == FoldLeft(step, <<<<>>, 0>>, Reverse(a))
  IN [q |-> Trim(Reverse(r[1])), r |-> r[2]]

(* bytes, most significant first, and back: k of them *)
FromBytes(b) == FoldLeft(LAMBDA acc, x : Add(MulSmall(acc, 256), IF x = 0 THEN <<>> ELSE <<x>>), <<>>, b)
ToBytes(a, k) ==
  LET RECURSIVE B(_, _)
      B(x, n) == IF n = 0 THEN <<>> ELSE LET d == DivSmall(x, 256) IN Append(B(d.q, n - 1), d.r)
  IN B(a, k)

(* decimal digits to a natural and back *)
FromDigits(d) ==
  LET n == Len(d)
      lo(i) == n - 4 * (i - 1)
      dig(k) == IF k >= 1 THEN d[k] ELSE 0
      limb(i) == dig(lo(i)) + 10 * dig(lo(i) - 1) + 100 * dig(lo(i) - 2) + 1000 * dig(lo(i) - 3)
  IN Trim([i \in 1..((n + 3) \div 4) |-> limb(i)])
ToDigits(a) ==
  LET n == Len(a)
      all == [k \in 1..(4 * n) |-> LET x == a[n - ((k - 1) \div 4)]  r == (k - 1) % 4 IN
                (CASE r = 0 -> x \div 1000 [] r = 1 -> (x \div 100) [] r = 2 -> (x \div 10) [] OTHER -> x) % 10]
      RECURSIVE Z(_)
      Z(i) == IF i < Len(all) /\ all[i] = 0 THEN Z(i + 1) ELSE i
  IN IF n = 0 THEN <<0>> ELSE SubSeq(all, Z(1), Len(all))
OfInt(n) == Trim(<<n % Base, (n \div Base) % Base, n \div (Base * Base)>>)

Pow10(k) == [i \in 1..(k \div 4) |-> 0] \o <<CASE k % 4 = 0 -> 1 [] k % 4 = 1 -> 10 [] k % 4 = 2 -> 100 [] OTHER -> 1000>>
LOCAL Two13s == FoldLeft(LAMBDA acc, i : Append(acc, MulSmall(acc[i], 8192)), <<<<1>>>>, [i \in 1..100 |-> i])
LOCAL Small2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>
Pow2(k) == MulSmall(Two13s[(k \div 13) + 1], Small2[(k % 13) + 1])
LOCAL Five5s == FoldLeft(LAMBDA acc, i : Append(acc, MulSmall(acc[i], 3125)), <<<<1>>>>, [i \in 1..220 |-> i])
Pow5(k) == MulSmall(Five5s[(k \div 5) + 1], <<1, 5, 25, 125, 625>>[(k % 5) + 1])

----------------------------------------------------------------------------
(* Binary floating point. A format has p bits of precision and least exponent q: its finite values are
   m * 2^e with m < 2^p and e >= q; the greatest e is top. *)
F32 == [p |-> 24, q |-> -149, top |-> 104]
F64 == [p |-> 53, q |-> -1074, top |-> 971]

(* the fraction a / b as a comparison with m * 2^k *)
CmpFrac(a, b, m, k) == IF k >= 0 THEN Cmp(a, Mul(Mul(m, Pow2(k)), b)) ELSE Cmp(Mul(a, Pow2(0 - k)), Mul(m, b))

(* is a / b (positive) too large for the format: does it round to more than the largest value? *)
TooLarge(f, a, b) == CmpFrac(a, b, Pred(Pow2(f.p + 1)), f.top - 1) >= 0

(* does a / b (positive) round to m * 2^e, to the nearest, ties to even? *)
RoundsTo(f, a, b, m, e) ==
  LET RECURSIVE Widen(_, _)   \* write m * 2^e with as many bits as the format has
      Widen(x, k) == IF k > f.q /\ Cmp(MulSmall(x, 2), Pow2(f.p)) < 0 THEN Widen(MulSmall(x, 2), k - 1) ELSE [m |-> x, e |-> k]
      w == Widen(m, e)
      even == w.m[1] % 2 = 0
      up == CmpFrac(a, b, Add(MulSmall(w.m, 2), <<1>>), w.e - 1)
      \* below a power of two, the values are closer
      low == IF Cmp(w.m, Pow2(f.p - 1)) = 0 /\ w.e > f.q
             THEN CmpFrac(a, b, Pred(MulSmall(w.m, 4)), w.e - 2)
             ELSE CmpFrac(a, b, Pred(MulSmall(w.m, 2)), w.e - 1)
  IN IF m = <<>> THEN CmpFrac(a, b, <<1>>, f.q - 1) <= 0
     ELSE /\ e >= f.q /\ Cmp(m, Pow2(f.p)) < 0
          /\ up < 0 \/ (up = 0 /\ even)
          /\ low > 0 \/ (low = 0 /\ even)
=============================================================================
