------------------------------- MODULE Pretty -------------------------------
(* What the pretty printer shows for a value: a sequence of chunks, each either text (t) or a float to be
   spelled in a way that denotes it (v).  Contents of sensitive fields are not even looked at. *)
EXTENDS Data

Lit(c) == <<[t |-> c]>>
Spaces(n) == [i \in 1..n |-> 32]
Nl == <<10>>
Redacted == <<91, 82, 69, 68, 65, 67, 84, 69, 68, 93>>
Sl3 == <<47, 47, 47>>
MapContents == <<47, 42, 32, 77, 97, 112, 32, 99, 111, 110, 116, 101, 110, 116, 115, 32, 42, 47>>
Unsupported == <<117, 110, 115, 117, 112, 112, 111, 114, 116, 101, 100, 32, 112, 101, 101, 107, 32, 118, 97, 114, 105, 97, 110, 116, 58, 32>>
Ellipsis == <<91, 46, 46, 46>>
DotsSome == <<58, 58, 83, 111, 109, 101, 40>>
DotsNone == <<58, 58, 78, 111, 110, 101>>
HexDig(d) == IF d < 10 THEN 48 + d ELSE 87 + d
SmallOf(digits) == FoldLeft(LAMBDA a, d : 10 * a + d, 0, digits)

DecOf_(n) == [i \in 1..Len(Num(n).d) |-> Num(n).d[i] + 48]
RECURSIVE HexN(_), Inter(_, _)
HexN(n) == (IF n >= 16 THEN HexN(n \div 16) ELSE <<>>) \o <<HexDig(n % 16)>>
Inter(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Inter(Tail(ss), sep)
V4Text(o) == Inter([i \in 1..4 |-> DecOf_(o[i])], <<46>>)
(* RFC 5952: the first of the longest runs of zeros, if longer than one, is left out *)
V6Text(o) ==
  LET g == [i \in 1..8 |-> 256 * o[2 * i - 1] + o[2 * i]]
      runs == {<<i, j>> \in (1..8) \X (1..8) : i < j /\ \A k \in i..j : g[k] = 0}
      hex(a, b) == Inter([i \in 1..(b - a + 1) |-> HexN(g[a + i - 1])], <<58>>)
  IN IF (\A i \in 1..5 : g[i] = 0) /\ g[6] = 65535 THEN <<58, 58, 102, 102, 102, 102, 58>> \o V4Text(SubSeq(o, 13, 16))
     ELSE IF runs = {} THEN hex(1, 8)
     ELSE LET r == CHOOSE x \in runs : \A y \in runs : x[2] - x[1] > y[2] - y[1] \/ (x[2] - x[1] = y[2] - y[1] /\ x[1] <= y[1])
          IN hex(1, r[1] - 1) \o <<58, 58>> \o hex(r[2] + 1, 8)
IpText(v) == IF v.n = 4 THEN V4Text(v.o) ELSE V6Text(v.o)
SockText(v) ==
  (IF v.ip.n = 4 THEN IpText(v.ip) ELSE <<91>> \o IpText(v.ip) \o (IF v.z = 0 THEN <<>> ELSE <<37>> \o DecOf_(v.z)) \o <<93>>) \o <<58>> \o DecOf_(v.p)
ScalarText(sh, v) ==
  IF Shapes[sh].s \in {"PathBuf", "PathRef"} THEN <<[q |-> v.c]>> ELSE
  CASE v.t = "unit" -> Lit(<<40, 41>>)
    [] v.t = "bool" -> Lit(IF v.b THEN TextTrue ELSE TextFalse)
    [] v.t = "int" -> Lit((IF v.g THEN <<45>> ELSE <<>>) \o [i \in 1..Len(v.d) |-> v.d[i] + 48])
    [] v.t = "chr" -> Lit(<<v.u>>)
    [] v.t = "str" -> Lit(v.c)
    [] v.t = "flt" -> <<[v |-> v]>>
    [] v.t = "ip" -> Lit(IpText(v))
    [] v.t = "sock" -> Lit(SockText(v))
    [] v.t = "tk" -> Lit(<<84, 107>> \o [i \in 1..Len(Num(v.id).d) |-> Num(v.id).d[i] + 48])

(* s: the settings, [ind |-> indentation, max |-> depth limit or -1]; d: depth of the value *)
Ind(s, d) == Spaces(s.ind * d)
Docs(s, d, doc) == Lit(Concat([i \in 1..Len(doc) |-> Ind(s, d) \o Sl3 \o doc[i] \o Nl]))
Bytes(s, d, e) ==
  Lit(Concat([i \in 1..Len(e) |->
    LET n == SmallOf(e[i].d) IN
    (IF i > 1 /\ (i - 1) % 16 = 0 THEN Nl \o Ind(s, d) ELSE <<32>>) \o <<HexDig(n \div 16), HexDig(n % 16)>>]))
IsBytes(sh) == K(sh) = "list" /\ K(Shapes[sh].t) = "scalar" /\ Shapes[Shapes[sh].t].s = "u8"
RECURSIVE Pr(_, _, _, _), Field_(_, _, _, _)
(* a field's value, and what closes its line *)
Field_(fd, v, s, d) == IF fd.sens THEN Lit(Redacted \o <<44, 10>>) ELSE Pr(fd.sh, v, s, d) \o Lit(<<44, 10>>)
Pr(sh, v, s, d) ==
  LET S == Shapes[sh] IN
  IF s.max >= 0 /\ d > s.max THEN Lit(Ellipsis)
  ELSE IF K(sh) = "scalar" THEN ScalarText(sh, v)
  ELSE IF K(sh) = "option" THEN Lit(S.tn) \o (IF v.t = "none" THEN Lit(DotsNone) ELSE Lit(DotsSome) \o Pr(S.t, v.x, s, d) \o Lit(<<41>>))
  ELSE IF K(sh) = "struct" THEN
    Docs(s, 0, S.doc) \o Lit(S.tn \o <<32, 123>>) \o
    (IF S.f = <<>> THEN Lit(<<125>>)
     ELSE Lit(Nl) \o Concat([i \in 1..Len(S.f) |->
            LET fd == S.f[i] IN
            Lit(IF i > 1 /\ fd.doc # <<>> THEN Nl ELSE <<>>) \o Docs(s, d + 1, fd.doc)
            \o Lit(Ind(s, d + 1) \o fd.dn \o <<58, 32>>) \o Field_(fd, v.f[i], s, d + 1)])
          \o Lit(Ind(s, d) \o <<125>>))
  ELSE IF K(sh) = "enum" THEN
    LET w == S.vs[v.i] IN
    Docs(s, 0, S.doc) \o Docs(s, 0, w.doc) \o Lit(S.tn \o <<58, 58>> \o w.key) \o
    (IF w.kind = "unit" THEN <<>>
     ELSE IF w.f = <<>> THEN Lit(IF w.kind = "tuple" THEN <<40, 41>> ELSE <<32, 123, 32, 125>>)
     ELSE Lit(IF w.kind = "tuple" THEN <<40, 10>> ELSE <<32, 123, 10>>)
          \o Concat([i \in 1..Len(w.f) |->
               LET fd == w.f[i] IN
               Lit(Ind(s, d + 1) \o Concat([j \in 1..Len(fd.doc) |-> Sl3 \o fd.doc[j] \o Nl \o Ind(s, d + 1)]))
               \o Lit(IF w.kind = "tuple" THEN <<>> ELSE fd.dn \o <<58, 32>>) \o Field_(fd, v.f[i], s, d + 1)])
          \o Lit(Ind(s, d) \o <<IF w.kind = "tuple" THEN 41 ELSE 125>>))
  ELSE IF IsBytes(sh) THEN Lit(S.tn \o <<10, 32>>) \o Bytes(s, d + 1, v.e) \o Lit((IF v.e = <<>> THEN <<>> ELSE <<>>) \o Ind(s, d))
  ELSE IF K(sh) = "list" THEN
    Lit(S.tn \o <<32, 91, 10>>)
    \o Concat([i \in 1..Len(v.e) |-> Lit(Ind(s, d + 1)) \o Pr(S.t, v.e[i], s, d + 1) \o Lit(<<44, 10>>)])
    \o Lit(Ind(s, d) \o <<93>>)
  ELSE IF K(sh) = "map" THEN Lit(S.tn \o <<32, 123, 10>> \o Ind(s, d + 1) \o MapContents \o Nl \o Ind(s, d) \o <<125>>)
  ELSE Lit(Unsupported \o S.tn)

Print_(sh, v, s) == Pr(sh, v, s, 0)

----------------------------------------------------------------------------
(* does a text show the chunks? *)
FloatChar(x) == x \in 48..57 \/ x \in {43, 45, 46, 69, 101}
RECURSIVE FloatEnd(_, _)
FloatEnd(t, i) == IF i <= Len(t) /\ FloatChar(t[i]) THEN FloatEnd(t, i + 1) ELSE i
(* what is quoted: character by character, as it is or escaped *)
RECURSIVE HexEnd(_, _), QuoteEnd(_, _, _)
HexEnd(t, i) == IF i <= Len(t) /\ (t[i] \in 48..57 \/ t[i] \in 97..102) THEN HexEnd(t, i + 1) ELSE i
HexVal(h) == FoldLeft(LAMBDA a, x : 16 * a + (IF x < 58 THEN x - 48 ELSE x - 87), 0, h)
Short_(x) == IF x = 110 THEN 10 ELSE IF x = 114 THEN 13 ELSE IF x = 116 THEN 9 ELSE IF x = 48 THEN 0 ELSE IF x \in {34, 39, 92} THEN x ELSE 0 - 1
QuoteEnd(t, i, q) ==
  IF i > Len(t) THEN 0
  ELSE IF q = <<>> THEN (IF t[i] = 34 THEN i + 1 ELSE 0)
  ELSE IF t[i] = 34 THEN 0
  ELSE IF t[i] # 92 THEN (IF t[i] = q[1] THEN QuoteEnd(t, i + 1, Tail(q)) ELSE 0)
  ELSE IF i = Len(t) THEN 0
  ELSE IF t[i + 1] # 117 THEN (IF Short_(t[i + 1]) = q[1] THEN QuoteEnd(t, i + 2, Tail(q)) ELSE 0)
  ELSE LET e == HexEnd(t, i + 3) IN
       IF i + 2 <= Len(t) /\ t[i + 2] = 123 /\ e <= Len(t) /\ t[e] = 125 /\ e - i \in 4..9 /\ HexVal(SubSeq(t, i + 3, e - 1)) = q[1] THEN QuoteEnd(t, e + 1, Tail(q)) ELSE 0
Step_(t, sh, pos, chunk) ==
  IF pos = 0 THEN 0
  ELSE IF "q" \in DOMAIN chunk THEN (IF pos <= Len(t) /\ t[pos] = 34 THEN QuoteEnd(t, pos + 1, chunk.q) ELSE 0)
  ELSE IF "t" \in DOMAIN chunk THEN
    LET n == Len(chunk.t) IN IF pos + n - 1 <= Len(t) /\ SubSeq(t, pos, pos + n - 1) = chunk.t THEN pos + n ELSE 0
  ELSE LET e == FloatEnd(t, pos)  x == FloatOf(SubSeq(t, pos, e - 1))
       IN IF IsNo(x) THEN 0
          ELSE IF \E f \in {"f32", "f64"} : Nearest([x EXCEPT !.t = "dec"] @@ [f |-> f], chunk.v) THEN e ELSE 0
Shows(t, chunks) == FoldLeft(LAMBDA pos, c : Step_(t, 0, pos, c), 1, chunks) = Len(t) + 1

(* the same, whatever the white space *)
Dense(c) == SelectSeq(c, LAMBDA x : x \notin {32, 10})
DenseChunks(chunks) == [i \in 1..Len(chunks) |-> IF "t" \in DOMAIN chunks[i] THEN [t |-> Dense(chunks[i].t)]
                                                    ELSE IF "q" \in DOMAIN chunks[i] THEN [q |-> SelectSeq(chunks[i].q, LAMBDA x : x # 32)] ELSE chunks[i]]
ShowsDense(t, chunks) == Shows(Dense(t), DenseChunks(chunks))

(* does a colored text show the plain one, with color codes put in that come in pairs, one setting and one resetting?
   state: j, how much of the plain text was seen; m, "off" | "on" | "esc" | "csi"; was, the mode before the code; a, its parameters *)
ColorStep(p, st, x) ==
  IF st.m = "bad" THEN st
  ELSE IF st.m \in {"off", "on"} THEN
    IF x = 27 THEN [st EXCEPT !.m = "esc", !.was = st.m, !.a = <<>>]
    ELSE IF st.j < Len(p) /\ p[st.j + 1] = x THEN [st EXCEPT !.j = @ + 1] ELSE [st EXCEPT !.m = "bad"]
  ELSE IF st.m = "esc" THEN [st EXCEPT !.m = IF x = 91 THEN "csi" ELSE "bad"]
  ELSE IF x = 109 THEN
    IF st.a \in {<<48>>, <<>>} THEN [st EXCEPT !.m = IF st.was = "on" THEN "off" ELSE "bad"]
    ELSE [st EXCEPT !.m = IF st.was = "off" THEN "on" ELSE "bad"]
  ELSE IF x \in 48..57 \/ x = 59 THEN [st EXCEPT !.a = Append(@, x)] ELSE [st EXCEPT !.m = "bad"]
Colored(p, c) ==
  \/ \E i \in 1..Len(p) : p[i] = 27   \* the value itself has escape characters: cannot be told apart
  \/ LET e == FoldLeft(LAMBDA st, x : ColorStep(p, st, x), [j |-> 0, m |-> "off", was |-> "off", a |-> <<>>], c)
     IN e.m = "off" /\ e.j = Len(p)
=============================================================================
