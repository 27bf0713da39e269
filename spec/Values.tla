------------------------------- MODULE Values -------------------------------
(* Values of the types in Universe, as the specifications see them.

   unit    [t |-> "unit"]              bool   [t |-> "bool", b |-> BOOLEAN]
   integer [t |-> "int", g |-> is negative, d |-> decimal digits, most significant first]
   char    [t |-> "chr", u |-> code]   String [t |-> "str", c |-> codes]
   f32/f64 [t |-> "flt", c |-> "fin" | "inf" | "nan", g |-> is negative, m |-> digits of the integral
            significand, e |-> binary exponent]
   tracked [t |-> "tk", id |-> n]      list   [t |-> "list", e |-> values]
   array   [t |-> "arr", e |-> values] map    [t |-> "map", e |-> <<key, value>> pairs]
   option  [t |-> "none"], [t |-> "some", x |-> value]      Arc  [t |-> "arc", x |-> value]
   struct  [t |-> "st", f |-> values]  enum   [t |-> "en", i |-> variant, f |-> values]

   A partial value (something under construction) is the same, with No where nothing was set yet. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Universe

No == [t |-> "no"]
IsNo(v) == v.t = "no"

Num(n) ==  \* a small integer
  LET RECURSIVE Digs(_)
      Digs(k) == IF k < 10 THEN <<k>> ELSE Digs(k \div 10) \o <<k % 10>>
  IN IF n < 0 THEN [t |-> "int", g |-> TRUE, d |-> Digs(0 - n)] ELSE [t |-> "int", g |-> FALSE, d |-> Digs(n)]
Str(c) == [t |-> "str", c |-> c]
Bool(b) == [t |-> "bool", b |-> b]
None == [t |-> "none"]
Some(v) == [t |-> "some", x |-> v]
List(e) == [t |-> "list", e |-> e]
Map(e) == [t |-> "map", e |-> e]
Tk(n) == [t |-> "tk", id |-> n]
Ip(o) == [t |-> "ip", n |-> IF Len(o) = 4 THEN 4 ELSE 6, o |-> o]
Dangling == [t |-> "weak", alive |-> FALSE]
Texts == {"Str", "CowStr", "PathBuf", "PathRef"}
Nothings == {"PhU8", "PhNo"}

K(sh) == Shapes[sh].k
IsInt(sh) == K(sh) = "scalar" /\ Shapes[sh].s \in
  {"u8","u16","u32","u64","u128","usize","i8","i16","i32","i64","i128","isize"}
HasTrait(sh, t) == t \in Shapes[sh].traits

(* which operations a type offers through its shape: what the type itself implements, except that
   containers, whose contents are only known through their shapes, offer what can be made from those *)
RECURSIVE Offers(_, _)
Offers(sh, t) ==
  LET s == Shapes[sh] IN
  CASE K(sh) = "option" ->
         CASE t \in {"Clone", "Debug", "FromStr"} -> Offers(s.t, t) [] t = "Default" -> TRUE [] OTHER -> FALSE
    [] K(sh) = "list" ->
         CASE t \in {"Clone", "Debug", "PartialEq", "Eq", "Hash"} -> Offers(s.t, t) [] t = "Default" -> TRUE [] OTHER -> FALSE
    [] K(sh) = "map" ->
         CASE t \in {"Clone", "Debug", "PartialEq", "Eq", "Hash"} -> Offers(s.kt, t) /\ Offers(s.vt, t)
           [] t = "Default" -> TRUE [] OTHER -> FALSE
    [] K(sh) = "array" -> IF t = "FromStr" THEN FALSE ELSE Offers(s.t, t)
    [] K(sh) = "slice" /\ t = "Copy" -> Offers(s.t, t)
    [] K(sh) = "struct" /\ s.sk = "tuple" ->
         IF t \in {"Debug", "PartialEq", "Eq", "Copy"} THEN \A i \in 1..Len(s.f) : Offers(s.f[i].sh, t) ELSE FALSE
    [] OTHER -> HasTrait(sh, t)

(* the fields of a (partial) value: those of the struct, or of the selected variant *)
FieldsOf(sh, pv) ==
  CASE K(sh) = "struct" -> Shapes[sh].f
    [] K(sh) = "enum" /\ pv.t = "en" -> Shapes[sh].vs[pv.i].f
    [] OTHER -> <<>>

NoFields(fs) == [i \in 1..Len(fs) |-> No]

(* what a position of some type holds before anything happened to it *)
Fresh(sh) == IF K(sh) = "struct" THEN [t |-> "st", f |-> NoFields(Shapes[sh].f)] ELSE No

(* is a partial value complete? *)
RECURSIVE Full(_, _)
Full(sh, pv) ==
  CASE K(sh) \in {"struct", "enum"} ->
         /\ ~IsNo(pv)
         /\ LET fs == FieldsOf(sh, pv) IN \A i \in 1..Len(fs) : Full(fs[i].sh, pv.f[i])
    [] OTHER -> ~IsNo(pv)

(* concatenation of a sequence of sequences *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(* the tracked values in a (partial) value, in order *)
RECURSIVE Toks(_)
Toks(v) ==
  CASE v.t = "tk" -> <<v.id>>
    [] v.t \in {"some", "arc"} -> Toks(v.x)
    [] v.t \in {"list", "arr"} -> Concat([i \in 1..Len(v.e) |-> Toks(v.e[i])])
    [] v.t = "map" -> Concat([i \in 1..Len(v.e) |-> Toks(v.e[i][1]) \o Toks(v.e[i][2])])
    [] v.t \in {"st", "en"} -> Concat([i \in 1..Len(v.f) |-> Toks(v.f[i])])
    [] OTHER -> <<>>
TokSet(v) == LET s == Toks(v) IN {s[i] : i \in DOMAIN s}

(* the same value, made anew: its tracked values are n, n+1, ... *)
RECURSIVE Renew(_, _), RenewSeq(_, _), RenewPairs(_, _)
Renew(v, n) ==
  CASE v.t = "tk" -> Tk(n)
    [] v.t \in {"some", "arc"} -> [v EXCEPT !.x = Renew(@, n)]
    [] v.t \in {"list", "arr"} -> [v EXCEPT !.e = RenewSeq(@, n)]
    [] v.t = "map" -> [v EXCEPT !.e = RenewPairs(@, n)]
    [] v.t \in {"st", "en"} -> [v EXCEPT !.f = RenewSeq(@, n)]
    [] OTHER -> v
RenewSeq(s, n) ==
  IF s = <<>> THEN <<>>
  ELSE <<Renew(Head(s), n)>> \o RenewSeq(Tail(s), n + Len(Toks(Head(s))))
RenewPairs(s, n) ==
  IF s = <<>> THEN <<>>
  ELSE LET k == Head(s)[1]  x == Head(s)[2]  m == n + Len(Toks(k))
       IN <<<<Renew(k, n), Renew(x, m)>>>> \o RenewPairs(Tail(s), m + Len(Toks(x)))

(* a clone of the value: new tracked values, n, n+1, ..., except what an Arc points to, which is shared *)
RECURSIVE OwnToks(_), CloneV(_, _), CloneSeq(_, _), ClonePairs(_, _)
OwnToks(v) ==
  CASE v.t = "tk" -> <<v.id>>
    [] v.t = "some" -> OwnToks(v.x)
    [] v.t \in {"list", "arr"} -> Concat([i \in 1..Len(v.e) |-> OwnToks(v.e[i])])
    [] v.t = "map" -> Concat([i \in 1..Len(v.e) |-> OwnToks(v.e[i][1]) \o OwnToks(v.e[i][2])])
    [] v.t \in {"st", "en"} -> Concat([i \in 1..Len(v.f) |-> OwnToks(v.f[i])])
    [] OTHER -> <<>>
CloneV(v, n) ==
  CASE v.t = "tk" -> Tk(n)
    [] v.t = "some" -> [v EXCEPT !.x = CloneV(@, n)]
    [] v.t \in {"list", "arr"} -> [v EXCEPT !.e = CloneSeq(@, n)]
    [] v.t = "map" -> [v EXCEPT !.e = ClonePairs(@, n)]
    [] v.t \in {"st", "en"} -> [v EXCEPT !.f = CloneSeq(@, n)]
    [] OTHER -> v
CloneSeq(s, n) ==
  IF s = <<>> THEN <<>>
  ELSE <<CloneV(Head(s), n)>> \o CloneSeq(Tail(s), n + Len(OwnToks(Head(s))))
ClonePairs(s, n) ==
  IF s = <<>> THEN <<>>
  ELSE LET k == Head(s)[1]  x == Head(s)[2]  m == n + Len(OwnToks(k))
       IN <<<<CloneV(k, n), CloneV(x, m)>>>> \o ClonePairs(Tail(s), m + Len(OwnToks(x)))

(* the default value of a type (tracked values to be renewed) *)
(* ... where the type has its own (see tools/types_decl.py) *)
StV(f) == [t |-> "st", f |-> f]
OwnDefault(name) ==
  CASE name = "DfW" -> StV(<<Num(7), Str(<<119, 104, 111, 108, 101>>), List(<<Num(3)>>), Some(Num(0 - 4))>>)
    [] name = "DwN" -> StV(<<StV(<<Num(1), Str(<<105, 110>>), List(<<>>), None>>), StV(<<Num(9), Str(<<102>>), Some(Num(3)), Num(8), List(<<Num(4)>>)>>),
                            List(<<StV(<<Num(5), Str(<<108>>), Some(Num(0 - 6))>>)>>), Str(<<107>>)>>)
RECURSIVE DefaultOf(_)
DefaultOf(sh) ==
  CASE K(sh) = "scalar" ->
         LET s == Shapes[sh].s IN
         CASE s = "unit" -> [t |-> "unit"]
           [] s = "bool" -> Bool(FALSE)
           [] s = "char" -> [t |-> "chr", u |-> 0]
           [] s = "String" -> Str(<<>>)
           [] s = "Tk" -> Tk(0)
           [] s \in {"f32", "f64"} -> [t |-> "flt", c |-> "fin", g |-> FALSE, m |-> <<0>>, e |-> 0]
           [] s \in Texts -> Str(<<>>)
           [] s \in Nothings -> [t |-> "unit"]
           [] OTHER -> Num(0)
    [] K(sh) = "weak" -> Dangling
    [] K(sh) \in {"list", "slice"} -> List(<<>>)
    [] K(sh) = "map" -> Map(<<>>)
    [] K(sh) = "option" -> None
    [] K(sh) = "arc" -> [t |-> "arc", x |-> DefaultOf(Shapes[sh].t)]
    [] K(sh) = "array" -> [t |-> "arr", e |-> [i \in 1..Shapes[sh].n |-> DefaultOf(Shapes[sh].t)]]
    [] K(sh) = "struct" -> IF Shapes[sh].name \in {"DfW", "DwN"} THEN OwnDefault(Shapes[sh].name)
                           ELSE [t |-> "st", f |-> [i \in 1..Len(Shapes[sh].f) |-> DefaultOf(Shapes[sh].f[i].sh)]]

(* some value of a type: used wherever any value will do *)
RECURSIVE Canon(_)
Canon(sh) ==
  CASE K(sh) = "scalar" ->
         LET s == Shapes[sh].s IN
         CASE s = "unit" -> [t |-> "unit"]
           [] s = "bool" -> Bool(TRUE)
           [] s = "char" -> [t |-> "chr", u |-> 120]
           [] s = "String" -> Str(<<97, 98>>)
           [] s = "Tk" -> Tk(0)
           [] s \in {"f32", "f64"} -> [t |-> "flt", c |-> "fin", g |-> FALSE, m |-> <<1>>, e |-> 0]
           [] s \in Texts -> Str(<<97, 98>>)
           [] s \in Nothings -> [t |-> "unit"]
           [] s \in {"Ipv4Addr", "IpAddr"} -> Ip(<<127, 0, 0, 1>>)
           [] s = "Ipv6Addr" -> Ip([i \in 1..16 |-> i])
           [] s = "SocketAddr" -> [t |-> "sock", ip |-> Ip(<<127, 0, 0, 1>>), p |-> 80, z |-> 0]
           [] OTHER -> Num(1)
    [] K(sh) = "weak" -> Dangling
    [] K(sh) = "opaque" -> [t |-> "arc", x |-> Tk(0)]
    [] K(sh) = "slice" -> List(<<Canon(Shapes[sh].t)>>)
    [] K(sh) = "list" -> IF K(Shapes[sh].t) = "struct" THEN List(<<>>) ELSE List(<<Canon(Shapes[sh].t)>>)
    [] K(sh) = "map" -> Map(<< <<Canon(Shapes[sh].kt), Canon(Shapes[sh].vt)>> >>)
    [] K(sh) = "option" -> Some(Canon(Shapes[sh].t))
    [] K(sh) = "arc" -> [t |-> "arc", x |-> Canon(Shapes[sh].t)]
    [] K(sh) = "array" -> [t |-> "arr", e |-> [i \in 1..Shapes[sh].n |-> Canon(Shapes[sh].t)]]
    [] K(sh) = "struct" -> [t |-> "st", f |-> [i \in 1..Len(Shapes[sh].f) |-> Canon(Shapes[sh].f[i].sh)]]
    [] K(sh) = "enum" -> LET i == IF Len(Shapes[sh].vs) > 1 THEN 2 ELSE 1 IN
         [t |-> "en", i |-> i, f |-> [j \in 1..Len(Shapes[sh].vs[i].f) |-> Canon(Shapes[sh].vs[i].f[j].sh)]]

(* maps are unordered: the same value, up to the order of entries (keys are distinct) *)
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t \in {"some", "arc"} -> Same(a.x, b.x)
       [] a.t \in {"list", "arr"} -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : Same(a.e[i], b.e[i])
       [] a.t \in {"st", "en"} -> /\ Len(a.f) = Len(b.f)
                                  /\ a.t = "en" => a.i = b.i
                                  /\ \A i \in 1..Len(a.f) : Same(a.f[i], b.f[i])
       [] a.t = "map" -> /\ Len(a.e) = Len(b.e)
                         /\ \A i \in 1..Len(a.e) : \E j \in 1..Len(b.e) :
                              Same(a.e[i][1], b.e[j][1]) /\ Same(a.e[i][2], b.e[j][2])
       [] OTHER -> a = b

(* unsigned comparison of digit sequences without leading zeros *)
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF a = <<>> THEN FALSE
               ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLt(Tail(a), Tail(b))
DigLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLt(a, b)
DigLe(a, b) == a = b \/ DigLt(a, b)

(* the declared invariants used in the universe *)
IntLe(a, b) == IF a.g THEN ~b.g \/ DigLe(b.d, a.d) ELSE ~b.g /\ DigLe(a.d, b.d)
Inv(sh, name, v) ==
  CASE Shapes[sh].name = "Inv" /\ name = "ordered" -> IntLe(v.f[1], v.f[2])
    [] Shapes[sh].name = "InvJ" /\ name = "ordered" -> IntLe(v.f[1], v.f[2])
    [] Shapes[sh].name = "Inv2" /\ name = "ordered" -> IntLe(v.f[2], v.f[3])
    [] Shapes[sh].name = "Inv2" /\ name = "short" -> Len(v.f[4].e) <= 1
    [] Shapes[sh].name = "Inv3" /\ name = "even" -> v.f[1].d[Len(v.f[1].d)] % 2 = 0
    [] Shapes[sh].name = "Inv3" /\ name = "named" -> Len(v.f[2].c) > 0
    [] Shapes[sh].name = "Inv3" /\ name = "has" -> v.f[3].t = "some"
InvHolds(sh, v) ==
  IF K(sh) = "struct" /\ Shapes[sh].sk \in {"struct", "tuplestruct"}
  THEN \A i \in 1..Len(Shapes[sh].inv) : Inv(sh, Shapes[sh].inv[i], v) ELSE TRUE

=============================================================================
