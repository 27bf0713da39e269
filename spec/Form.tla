-------------------------------- MODULE Form --------------------------------
(* Url-encoded forms: what the bytes of a form denote, and what reading it into a type has to give.

   A form is a sequence of pairs key=value separated by &. In keys and values + stands for a space and
   %hh for a byte; the bytes are UTF-8, and what is not is replaced. A key is a name, followed by names in
   brackets: the path to a field. *)
EXTENDS Data

Split(b, c) ==  \* at every c
  LET RECURSIVE S(_, _, _)
      S(i, cur, acc) == IF i > Len(b) THEN Append(acc, cur) ELSE IF b[i] = c THEN S(i + 1, <<>>, Append(acc, cur)) ELSE S(i + 1, Append(cur, b[i]), acc)
  IN S(1, <<>>, <<>>)
First(b, c) == LET at == {i \in DOMAIN b : b[i] = c} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 0 - 1
Unescape(b) ==
  LET n == Len(b)
      RECURSIVE U(_, _)
      U(i, acc) == IF i > n THEN acc
                   ELSE IF b[i] = 43 THEN U(i + 1, Append(acc, 32))
                   ELSE IF b[i] = 37 /\ i + 2 <= n /\ Hex(b[i + 1]) >= 0 /\ Hex(b[i + 2]) >= 0 THEN U(i + 3, Append(acc, Hex(b[i + 1]) * 16 + Hex(b[i + 2])))
                   ELSE U(i + 1, Append(acc, b[i]))
  IN U(1, <<>>)
(* how much of b from i on is the beginning of a code that does not end well *)
BadRun(b, i) ==
  LET n == Len(b)  l == b[i]
      in(k, lo, hi) == i + k <= n /\ b[i + k] \in lo..hi
      lo == CASE l = 224 -> 160 [] l = 240 -> 144 [] OTHER -> 128
      hi == CASE l = 237 -> 159 [] l = 244 -> 143 [] OTHER -> 191
  IN IF l \in 224..239 THEN IF in(1, lo, hi) THEN 2 ELSE 1
     ELSE IF l \in 240..244 THEN IF in(1, lo, hi) THEN IF in(2, 128, 191) THEN 3 ELSE 2 ELSE 1
     ELSE 1
Lossy(b) ==
  LET RECURSIVE D(_, _)
      D(i, acc) == IF i > Len(b) THEN acc
                   ELSE LET u == Utf8At(b, i) IN IF u.n = 0 THEN D(i + BadRun(b, i), Append(acc, 65533)) ELSE D(i + u.n, Append(acc, u.c))
  IN IF Ascii(b) THEN b ELSE D(1, <<>>)
Pair(b) == LET k == First(b, 61) IN
           IF k = 0 THEN <<Lossy(Unescape(b)), <<>>>> ELSE <<Lossy(Unescape(SubSeq(b, 1, k - 1))), Lossy(Unescape(SubSeq(b, k + 1, Len(b))))>>
Pairs(b) == LET parts == Split(b, 38)
                RECURSIVE P(_, _)
                P(i, acc) == IF i > Len(parts) THEN acc ELSE P(i + 1, IF parts[i] = <<>> THEN acc ELSE Append(acc, Pair(parts[i])))
            IN P(1, <<>>)

(* the path a key spells: [ok, p]; not ok if the brackets make no sense *)
Path(k) ==
  LET n == Len(k)
      o == First(k, 91)
      RECURSIVE B(_, _)      \* from an opening bracket on
      B(i, acc) ==
        IF i > n THEN [ok |-> TRUE, p |-> acc]
        ELSE IF k[i] # 91 THEN [ok |-> FALSE, p |-> acc]
        ELSE LET cl == {j \in i..n : k[j] = 93} IN
             IF cl = {} THEN [ok |-> FALSE, p |-> acc]
             ELSE LET j == CHOOSE j \in cl : \A m \in cl : j <= m
                      nm == SubSeq(k, i + 1, j - 1)
                  IN IF \E m \in DOMAIN nm : nm[m] = 91 THEN [ok |-> FALSE, p |-> acc] ELSE B(j + 1, Append(acc, nm))
      head == IF o = 0 THEN k ELSE SubSeq(k, 1, o - 1)
  IN IF \E m \in DOMAIN head : head[m] = 93 THEN [ok |-> FALSE, p |-> <<head>>] ELSE IF o = 0 THEN [ok |-> TRUE, p |-> <<k>>] ELSE B(o, <<head>>)

(* es: sequence of <<path, value>>, in the order of the form *)
About(es, name) == LET RECURSIVE F(_, _)
                     F(i, acc) == IF i > Len(es) THEN acc ELSE F(i + 1, IF es[i][1][1] = name THEN Append(acc, <<Tail(es[i][1]), es[i][2]>>) ELSE acc)
                 IN F(1, <<>>)
RECURSIVE Decode(_, _)
Decode(sh, es) ==     \* es: what is said about this value
  LET S == Shapes[sh]
      flat == {i \in 1..Len(es) : es[i][1] = <<>>}
      last == CHOOSE i \in flat : \A j \in flat : j <= i
  IN IF es = <<>> THEN No_                                      \* nothing is said
     ELSE IF K(sh) = "scalar" THEN
       IF flat # DOMAIN es THEN No_                             \* something about parts it does not have
       ELSE IF S.s = "String" THEN Ok_(Str(es[last][2]))
       ELSE IF S.s = "u64" THEN LET n == NumberOf(es[last][2]) IN
            IF IsNo(n) THEN No_ ELSE IF es[last][2][1] \in {43, 45} THEN IF n.g THEN No_ ELSE Soft(ReadInt("u64", n)) ELSE ReadInt("u64", n)
       ELSE No_                                                 \* not supported
     ELSE IF K(sh) # "struct" THEN No_
     ELSE IF flat # {} THEN No_                                 \* a text for a struct
     ELSE LET fs == S.f  sub(i) == About(es, fs[i].dn) IN
          IF \E i \in 1..Len(fs) : fs[i].dn # fs[i].key \/ (sub(i) = <<>> /\ (fs[i].def # "none" \/ S.dflt)) THEN Any_    \* other rules for fields are not supported
          ELSE IF \E i \in 1..Len(fs) : sub(i) = <<>> /\ K(fs[i].sh) = "struct" /\ Shapes[fs[i].sh].f = <<>> THEN Any_
          ELSE Both([i \in 1..Len(fs) |-> Decode(fs[i].sh, sub(i))], LAMBDA vs : [t |-> "st", f |-> vs])
Read(sh, b) ==
  LET ps == Pairs(b)
      es == [i \in 1..Len(ps) |-> <<Path(ps[i][1]), ps[i][2]>>]
      names == {Shapes[sh].f[i].dn : i \in 1..Len(Shapes[sh].f)}
      RECURSIVE G(_, _)
      G(i, acc) == IF i > Len(es) THEN acc ELSE G(i + 1, IF es[i][1].ok THEN Append(acc, <<es[i][1].p, es[i][2]>>) ELSE acc)
  IN IF K(sh) # "struct" THEN No_
     \* a key that is no path may still be taken for something if it begins with a field
     ELSE IF \E i \in 1..Len(es) : ~es[i][1].ok /\ es[i][1].p[1] \in names THEN Any_
     ELSE IF Shapes[sh].f = <<>> THEN Any_
     ELSE LET good == G(1, <<>>)
              r == IF good = <<>> THEN No_ ELSE Decode(sh, good)
          IN IF r.s \in {"ok", "may"} /\ ~InvHolds(sh, r.v) THEN No_ ELSE r
=============================================================================
