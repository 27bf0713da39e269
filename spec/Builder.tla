------------------------------- MODULE Builder -------------------------------
(* The incremental builder (facet-reflect's Wip): a stack of positions in a value under
   construction, each holding a partial value. A step either is accepted and changes the state, or
   is refused, which consumes the builder.

   Apply(w, op) says what a step does; the actions, one per kind of step, are at the end. The state:
     w.stack    positions, outermost first. Each is
                  [sh   |-> its type,
                   mode |-> "root" | "field" | "elem" | "key" | "val" | "some" | "none",
                   idx  |-> index of the field it is (mode "field"), else 0,
                   bit  |-> whether the parent records that field as set,
                   pv   |-> its partial value]
                While a field is on the stack, the parent's own record of it is No.
     w.root     the root's partial value, once the root itself was left
     w.loose    partial values that were left without becoming part of anything: they stay around
                until the builder is gone
     w.next     the tracked values handed over or made so far are 1 .. next-1
     w.gone     those dropped so far *)
EXTENDS Values

CONSTANTS Null \* "no value": distinct from every record

----------------------------------------------------------------------------
(* helpers *)
Top(w) == w.stack[Len(w.stack)]
SetTop(w, fr) == [w EXCEPT !.stack[Len(w.stack)] = fr]
Init0(sh) == [stack |-> << [sh |-> sh, mode |-> "root", idx |-> 0, bit |-> FALSE, pv |-> Fresh(sh)] >>,
              root |-> No, loose |-> <<>>, next |-> 1, gone |-> {}]
DropPv(w, pv) == [w EXCEPT !.gone = @ \cup TokSet(pv)]
Ok(w) == [ok |-> TRUE, w |-> w]
(* a refused step: the builder, and with it everything it holds, is gone *)
Everything(w) == UNION ({TokSet(w.stack[i].pv) : i \in DOMAIN w.stack} \cup {TokSet(w.root)}
                        \cup {TokSet(w.loose[i]) : i \in DOMAIN w.loose})
Abandon(w) == [w EXCEPT !.stack = <<>>, !.root = No, !.loose = <<>>, !.gone = @ \cup Everything(w)]
Refuse(w) == [ok |-> FALSE, w |-> Abandon(w)]

Empty(w) == w.stack = <<>>
IsNoneFrame(w) == Top(w).mode = "none"
CanPut(w) == ~IsNoneFrame(w) /\ ~(Top(w).mode = "field" /\ Top(w).bit)

(* the top position becomes the complete value v; whatever was there is dropped *)
Fill(w, v) == LET fr == Top(w) IN
  SetTop(DropPv(w, fr.pv), [fr EXCEPT !.pv = v, !.bit = (fr.mode = "field")])

(* hand over the value v (renewed: it is made for this) *)
Take(w, v) == [v |-> Renew(v, w.next), w |-> [w EXCEPT !.next = @ + Len(Toks(v))]]
(* ... but the step refuses it: it is dropped along with everything else *)
RefuseTaken(tk) == Refuse([tk.w EXCEPT !.gone = @ \cup TokSet(tk.v)])

----------------------------------------------------------------------------
(* steps *)
DoField(w, i) ==
  IF Empty(w) \/ IsNoneFrame(w) THEN Refuse(w)
  ELSE LET fr == Top(w)  fs == FieldsOf(fr.sh, fr.pv) IN
    IF ~(i \in 1..Len(fs)) THEN Refuse(w)
    ELSE LET c == fr.pv.f[i]
             pushed == [sh |-> fs[i].sh, mode |-> "field", idx |-> i, bit |-> Full(fs[i].sh, c),
                        pv |-> IF IsNo(c) THEN Fresh(fs[i].sh) ELSE c]
         IN Ok([SetTop(w, [fr EXCEPT !.pv.f[i] = No]) EXCEPT !.stack = Append(@, pushed)])

(* the field with some name, if any *)
FieldNamed(w, n) == LET fs == FieldsOf(Top(w).sh, Top(w).pv)
                        c == {i \in 1..Len(fs) : fs[i].n = n}
                    IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
DoFieldNamed(w, n) == IF Empty(w) THEN Refuse(w) ELSE DoField(w, FieldNamed(w, n))

DoVariant(w, i) ==
  IF Empty(w) \/ IsNoneFrame(w) THEN Refuse(w)
  ELSE LET fr == Top(w) IN
    IF K(fr.sh) # "enum" THEN Refuse(w)
    ELSE IF ~(i \in 1..Len(Shapes[fr.sh].vs)) THEN Refuse(w)
    ELSE Ok(SetTop(DropPv(w, fr.pv),
              [fr EXCEPT !.pv = [t |-> "en", i |-> i, f |-> NoFields(Shapes[fr.sh].vs[i].f)]]))
VariantNamed(w, n) == IF K(Top(w).sh) # "enum" THEN 0 ELSE
                      LET vs == Shapes[Top(w).sh].vs  c == {i \in 1..Len(vs) : vs[i].n = n}
                      IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
DoVariantNamed(w, n) == IF Empty(w) THEN Refuse(w) ELSE DoVariant(w, VariantNamed(w, n))

(* a value of type sh, in hand: into a position of that type, or of the option of it *)
Store(tk, sh) ==
  IF Empty(tk.w) THEN RefuseTaken(tk)
  ELSE IF ~CanPut(tk.w) THEN RefuseTaken(tk)
  ELSE IF Top(tk.w).sh = sh THEN Ok(Fill(tk.w, tk.v))
  ELSE IF K(Top(tk.w).sh) = "option" /\ Shapes[Top(tk.w).sh].t = sh THEN Ok(Fill(tk.w, Some(tk.v)))
  ELSE RefuseTaken(tk)
DoPut(w, sh, v) == Store(Take(w, v), sh)
(* the value is cloned from one that is only borrowed; the original is dropped by its owner (what it
   shares with its clone is not) *)
DoPeek(w, sh, v) ==
  LET tk == Take(w, v)
      own == OwnToks(tk.v)
      w1 == [tk.w EXCEPT !.gone = @ \cup {own[i] : i \in DOMAIN own}]
  IN IF Offers(sh, "Clone")
     THEN Store([v |-> CloneV(tk.v, w1.next), w |-> [w1 EXCEPT !.next = @ + Len(own)]], sh)
     ELSE RefuseTaken([tk EXCEPT !.w = w1])

(* made in place *)
Make(w, v) == LET tk == Take(w, v) IN Ok(Fill(tk.w, tk.v))
DoDefault(w) ==
  IF Empty(w) THEN Refuse(w)
  ELSE IF Offers(Top(w).sh, "Default") /\ CanPut(w) THEN Make(w, DefaultOf(Top(w).sh)) ELSE Refuse(w)
DoFromFn(w, v) == \* only called with values of the right type: nothing else can be checked
  IF Empty(w) THEN Refuse(w) ELSE IF CanPut(w) THEN Make(w, v) ELSE Refuse(w)

(* parsing: the texts used are codes of "7" and "!" *)
RECURSIVE ParseOf(_, _)
ParseOf(sh, s) ==
  IF K(sh) = "option" THEN LET x == ParseOf(Shapes[sh].t, s) IN IF IsNo(x) THEN No ELSE Some(x)
  ELSE IF K(sh) # "scalar" THEN No
  ELSE CASE Shapes[sh].s = "String" -> Str(s)
         [] Shapes[sh].s = "Tk" -> IF s = <<55>> THEN Tk(0) ELSE No
         [] Shapes[sh].s = "PathBuf" -> Str(s)
         [] Shapes[sh].s = "char" -> [t |-> "chr", u |-> s[1]]
         [] s # <<55>> \/ ~HasTrait(sh, "FromStr") \/ Shapes[sh].s \in {"bool", "Ipv4Addr", "Ipv6Addr", "IpAddr", "SocketAddr"} -> No
         [] Shapes[sh].s \in {"f32", "f64"} -> [t |-> "flt", c |-> "fin", g |-> FALSE, m |-> <<7>>, e |-> 0]
         [] OTHER -> Num(7)
DoParse(w, s) ==
  IF Empty(w) THEN Refuse(w)
  ELSE IF ~CanPut(w) \/ IsNo(ParseOf(Top(w).sh, s)) THEN Refuse(w)
  ELSE Make(w, ParseOf(Top(w).sh, s))

DoEmptyList(w) ==
  IF Empty(w) THEN Refuse(w)
  ELSE IF CanPut(w) /\ K(Top(w).sh) = "list" THEN Make(w, List(<<>>)) ELSE Refuse(w)
DoEmptyMap(w) ==
  IF Empty(w) THEN Refuse(w)
  ELSE IF CanPut(w) /\ K(Top(w).sh) = "map" THEN Make(w, Map(<<>>)) ELSE Refuse(w)

(* a list or map that has no value yet becomes empty; the parent does not know until we pop *)
Begun(w, e) == IF IsNo(Top(w).pv) THEN SetTop(w, [Top(w) EXCEPT !.pv = e]) ELSE w
DoBeginList(w) ==
  IF Empty(w) \/ IsNoneFrame(w) THEN Refuse(w)
  ELSE IF K(Top(w).sh) = "list" THEN Ok(Begun(w, List(<<>>))) ELSE Refuse(w)
DoBeginMap(w) ==
  IF Empty(w) \/ IsNoneFrame(w) THEN Refuse(w)
  ELSE IF K(Top(w).sh) = "map" THEN Ok(Begun(w, Map(<<>>))) ELSE Refuse(w)

PushFrame(w, sh, mode) ==
  [w EXCEPT !.stack = Append(@, [sh |-> sh, mode |-> mode, idx |-> 0, bit |-> FALSE, pv |-> Fresh(sh)])]
DoPush(w) ==
  IF Empty(w) \/ IsNoneFrame(w) THEN Refuse(w)
  ELSE IF K(Top(w).sh) = "list"
       THEN Ok(PushFrame(Begun(w, List(<<>>)), Shapes[Top(w).sh].t, "elem")) ELSE Refuse(w)
DoKey(w) ==
  IF Empty(w) \/ IsNoneFrame(w) THEN Refuse(w)
  ELSE IF K(Top(w).sh) = "map"
       THEN Ok(PushFrame(Begun(w, Map(<<>>)), Shapes[Top(w).sh].kt, "key")) ELSE Refuse(w)
DoVal(w) ==
  IF Empty(w) THEN Refuse(w)
  ELSE IF Top(w).mode = "key" /\ Full(Top(w).sh, Top(w).pv)
       THEN Ok(PushFrame(w, Shapes[w.stack[Len(w.stack) - 1].sh].vt, "val")) ELSE Refuse(w)
DoSome(w) ==
  IF Empty(w) \/ IsNoneFrame(w) THEN Refuse(w)
  ELSE IF K(Top(w).sh) = "option" THEN Ok(PushFrame(w, Shapes[Top(w).sh].t, "some")) ELSE Refuse(w)
(* the payload that was begun is given up: the option is none. The position stays one level deeper,
   where nothing can be written *)
DoNone(w) ==
  IF Empty(w) THEN Refuse(w)
  ELSE LET fr == Top(w) IN
    IF fr.mode # "some" \/ Full(fr.sh, fr.pv) THEN Refuse(w)
    ELSE LET w1 == [DropPv(w, fr.pv) EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
             p == Top(w1)
             w2 == SetTop(DropPv(w1, p.pv), [p EXCEPT !.pv = None])
         IN Ok([w2 EXCEPT !.stack = Append(@, [sh |-> fr.sh, mode |-> "none", idx |-> 0, bit |-> FALSE, pv |-> Fresh(fr.sh)])])

(* the entry of key k becomes v; the value it had, and the extra key, are dropped *)
Insert(w, k, v) ==
  LET p == Top(w)  e == p.pv.e
      hits == {i \in 1..Len(e) : Same(e[i][1], k)}
  IN IF hits = {} THEN SetTop(w, [p EXCEPT !.pv.e = Append(@, <<k, v>>)])
     ELSE LET i == CHOOSE i \in hits : TRUE
          IN SetTop([w EXCEPT !.gone = @ \cup TokSet(e[i][2]) \cup TokSet(k)],
                    [p EXCEPT !.pv.e[i] = <<e[i][1], v>>])

(* back up one level *)
Up(w) ==
  LET fr == Top(w)
      full == Full(fr.sh, fr.pv)
      w1 == [w EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
      lost == [w1 EXCEPT !.loose = Append(@, fr.pv)]
  IN CASE fr.mode = "root" -> [w1 EXCEPT !.root = fr.pv]
       [] fr.mode = "field" -> SetTop(w1, [Top(w1) EXCEPT !.pv.f[fr.idx] = fr.pv])
       [] fr.mode = "none" -> w1
       [] fr.mode = "elem" -> IF full THEN SetTop(w1, [Top(w1) EXCEPT !.pv.e = Append(@, fr.pv)]) ELSE lost
       [] fr.mode = "some" -> IF full THEN SetTop(DropPv(w1, Top(w1).pv), [Top(w1) EXCEPT !.pv = Some(fr.pv)])
                              ELSE lost
       [] fr.mode = "key" -> lost
       [] fr.mode = "val" -> IF full THEN Insert([w1 EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], Top(w1).pv, fr.pv)
                             ELSE lost
DoPop(w) == IF Empty(w) THEN Refuse(w) ELSE Ok(Up(w))

(* finishing: every open position is left, and the root must be complete and uphold its invariants *)
RECURSIVE UpAll(_)
UpAll(w) == IF Empty(w) THEN w ELSE UpAll(Up(w))
DoBuild(rootsh, w) ==
  LET u == UpAll(w) IN
  IF ~Full(rootsh, u.root) THEN Refuse(u)
  ELSE IF ~InvHolds(rootsh, u.root) THEN Refuse(u)
  ELSE [ok |-> TRUE, val |-> u.root,
        w |-> [u EXCEPT !.root = No, !.loose = <<>>,
                        !.gone = @ \cup UNION {TokSet(u.loose[i]) : i \in DOMAIN u.loose}]]

Apply(w, op) ==
  CASE op.o = "field" -> DoField(w, op.i)
    [] op.o = "fieldn" -> DoFieldNamed(w, op.n)
    [] op.o = "variant" -> DoVariant(w, op.i)
    [] op.o = "variantn" -> DoVariantNamed(w, op.n)
    [] op.o = "put" -> DoPut(w, op.sh, op.v)
    [] op.o = "peek" -> DoPeek(w, op.sh, op.v)
    [] op.o = "putfn" -> DoFromFn(w, op.v)
    [] op.o = "default" -> DoDefault(w)
    [] op.o = "parse" -> DoParse(w, op.txt)
    [] op.o = "elist" -> DoEmptyList(w)
    [] op.o = "emap" -> DoEmptyMap(w)
    [] op.o = "blist" -> DoBeginList(w)
    [] op.o = "bmap" -> DoBeginMap(w)
    [] op.o = "push" -> DoPush(w)
    [] op.o = "some" -> DoSome(w)
    [] op.o = "none" -> DoNone(w)
    [] op.o = "key" -> DoKey(w)
    [] op.o = "val" -> DoVal(w)
    [] op.o = "pop" -> DoPop(w)

----------------------------------------------------------------------------
(* what the builder reports about itself *)
PathSeg(w, i) ==
  LET fr == w.stack[i] IN
  CASE fr.mode = "field" -> "." \o FieldsOf(w.stack[i-1].sh, w.stack[i-1].pv)[fr.idx].n
    [] fr.mode = "elem" -> "[?]"
    [] fr.mode = "key" -> ".key"
    [] fr.mode = "val" -> ".value"
    [] fr.mode = "some" -> ".some"
    [] fr.mode = "none" -> ".none"
    [] OTHER -> ""
RECURSIVE PathUpTo(_, _)
PathUpTo(w, i) == IF i <= 1 THEN "$" ELSE PathUpTo(w, i - 1) \o PathSeg(w, i)
Report(w) ==
  IF Empty(w) THEN [n |-> 0]
  ELSE LET fr == Top(w) fs == FieldsOf(fr.sh, fr.pv) IN
    [n |-> Len(w.stack), sh |-> fr.sh, m |-> fr.mode, p |-> PathUpTo(w, Len(w.stack)),
     set |-> [i \in 1..Len(fs) |-> IF Full(fs[i].sh, fr.pv.f[i]) THEN 1 ELSE 0],
     var |-> IF K(fr.sh) = "enum" /\ fr.pv.t = "en" THEN Shapes[fr.sh].vs[fr.pv.i].n ELSE "",
     es |-> IF K(fr.sh) = "list" THEN Shapes[fr.sh].t ELSE 0,   \* types of elements and keys
     ks |-> IF K(fr.sh) = "map" THEN Shapes[fr.sh].kt ELSE 0]

----------------------------------------------------------------------------
(* properties of the design *)

(* W01: every tracked value is in exactly one place, or gone; none is lost or in two places *)
Held(w) == Concat([i \in 1..Len(w.stack) |-> Toks(w.stack[i].pv)]) \o Toks(w.root)
           \o Concat([i \in 1..Len(w.loose) |-> Toks(w.loose[i])])
Accounted(w, extra) ==
  LET h == Held(w) \o extra  hs == {h[i] : i \in DOMAIN h} IN
  /\ Cardinality(hs) = Len(h)
  /\ hs \cap w.gone = {}
  /\ hs \cup w.gone = 1..(w.next - 1)

(* does a value inhabit a type? (W03/W04: nothing of another type ever gets in) *)
RECURSIVE Inhabits(_, _)
Inhabits(v, sh) ==
  CASE K(sh) = "scalar" ->
         LET s == Shapes[sh].s IN
         CASE s = "unit" -> v.t = "unit" [] s = "bool" -> v.t = "bool" [] s = "char" -> v.t = "chr"
           [] s = "String" -> v.t = "str" [] s = "Tk" -> v.t = "tk" [] s \in {"f32", "f64"} -> v.t = "flt"
           [] s \in Texts -> v.t = "str" [] s \in Nothings -> v.t = "unit"
           [] s \in {"Ipv4Addr", "Ipv6Addr", "IpAddr"} -> v.t = "ip" [] s = "SocketAddr" -> v.t = "sock"
           [] OTHER -> v.t = "int"
    [] K(sh) = "weak" -> v.t = "weak"
    [] K(sh) = "opaque" -> v.t = "arc"
    [] K(sh) \in {"list", "slice"} -> v.t = "list" /\ \A i \in 1..Len(v.e) : Inhabits(v.e[i], Shapes[sh].t)
    [] K(sh) = "array" -> v.t = "arr" /\ Len(v.e) = Shapes[sh].n /\ \A i \in 1..Len(v.e) : Inhabits(v.e[i], Shapes[sh].t)
    [] K(sh) = "map" -> v.t = "map" /\ \A i \in 1..Len(v.e) : Inhabits(v.e[i][1], Shapes[sh].kt) /\ Inhabits(v.e[i][2], Shapes[sh].vt)
    [] K(sh) = "option" -> v.t = "none" \/ (v.t = "some" /\ Inhabits(v.x, Shapes[sh].t))
    [] K(sh) = "arc" -> v.t = "arc" /\ Inhabits(v.x, Shapes[sh].t)
    [] K(sh) = "struct" -> v.t = "st" /\ Len(v.f) = Len(Shapes[sh].f) /\ \A i \in 1..Len(v.f) : Inhabits(v.f[i], Shapes[sh].f[i].sh)
    [] K(sh) = "enum" -> v.t = "en" /\ LET fs == Shapes[sh].vs[v.i].f IN
                           Len(v.f) = Len(fs) /\ \A i \in 1..Len(fs) : Inhabits(v.f[i], fs[i].sh)
=============================================================================
