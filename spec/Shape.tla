-------------------------------- MODULE Shape --------------------------------
(* What reflection has to say about a type: a function of its declaration, and of how the compiler lays
   types out (the sizes and alignments of the fields' types come with the outcome, natively; where the
   language fixes the layout, everything else is computed here).

   An outcome o:
     tn name; sz, al size and alignment reported; nsz, nal the compiler's, noff its offsets of the fields (declared
     structs); tp type parameters; doc; deny, dflt, rest how many such attributes, arb the others; inv, drop whether there
     are such operations; d the definition; nf, nv, nt sizes and alignments of the fields' types, of each variant's fields'
     types, of the type contained *)
EXTENDS Data

----------------------------------------------------------------------------
(* layouts *)
Up(n, a) == ((n + a - 1) \div a) * a
Max2(a, b) == IF a > b THEN a ELSE b
(* fields, as <<size, alignment>>, one after the other as C does: offsets, end, alignment *)
RECURSIVE CLay(_, _, _, _)
CLay(fs, offs, end, al) ==
  IF fs = <<>> THEN [offs |-> offs, end |-> end, al |-> al]
  ELSE LET o == Up(end, Head(fs)[2]) IN CLay(Tail(fs), Append(offs, o), o + Head(fs)[1], Max2(al, Head(fs)[2]))
MaxOf(s) == FoldLeft(LAMBDA a, x : Max2(a, x), 0, s)

Tag(repr) == CASE repr \in {"u8", "i8"} -> 1 [] repr \in {"u16", "i16"} -> 2 [] repr \in {"u32", "i32", "C"} -> 4 [] OTHER -> 8
(* an enum with a representation of its own: every variant a C struct that starts with the tag;
   one with C's: the tag, then a union of C structs *)
EnumLay(repr, clay, vs) ==
  LET t == Tag(repr)
      structs == [i \in DOMAIN vs |-> CLay(vs[i], <<>>, 0, 1)]
      ual == Max2(1, MaxOf([i \in DOMAIN vs |-> structs[i].al]))
      u == Up(t, ual)
      whole == [i \in DOMAIN vs |-> CLay(<<<<t, t>>>> \o vs[i], <<>>, 0, 1)]
      al == Max2(t, ual)
  IN IF clay
     THEN [offs |-> [i \in DOMAIN vs |-> [j \in DOMAIN vs[i] |-> u + structs[i].offs[j]]],
           sz |-> Up(u + Up(MaxOf([i \in DOMAIN vs |-> Up(structs[i].end, structs[i].al)]), ual), al), al |-> al]
     ELSE [offs |-> [i \in DOMAIN vs |-> Tail(whole[i].offs)], sz |-> Up(MaxOf([i \in DOMAIN vs |-> whole[i].end]), al), al |-> al]

(* whatever decides where fields are: they are inside, aligned, and apart *)
Apart(offs, fs, from, size) ==
  \A i \in DOMAIN fs :
    /\ offs[i] % fs[i][2] = 0
    /\ offs[i] + fs[i][1] <= size
    /\ fs[i][1] > 0 => offs[i] >= from
    /\ \A j \in DOMAIN fs : (j # i /\ fs[i][1] > 0 /\ fs[j][1] > 0) => offs[i] + fs[i][1] <= offs[j] \/ offs[j] + fs[j][1] <= offs[i]

----------------------------------------------------------------------------
(* scalars *)
Fin(g, m, e) == [t |-> "flt", c |-> "fin", g |-> g, m |-> ToDigits(m), e |-> e]
Inf(g) == [t |-> "flt", c |-> "inf", g |-> g, m |-> <<0>>, e |-> 0]
IntV(g, d) == [t |-> "int", g |-> g, d |-> d]
IntAff(s) ==
  LET lo == IF Signed(s) THEN IntV(TRUE, MinDigits(s)) ELSE IntV(FALSE, IF s \in NonZeros THEN <<1>> ELSE <<0>>) IN
  [a |-> "int", bits |-> 8 * Shapes[ShIdx(s)].sz, signed |-> Signed(s), min |-> lo, max |-> IntV(FALSE, MaxDigits(s)),
   pinf |-> None, ninf |-> None, nan |-> None, pzero |-> None, nzero |-> None, eps |-> None]
FloatAff(s) ==
  LET f == Format(s)
      e == IF s = "f32" THEN 8 ELSE 11
  IN [a |-> "float", bits |-> <<1, e, f.p - 1>>, first |-> FALSE,
      min |-> Fin(TRUE, Pred(Pow2(f.p)), f.top), max |-> Fin(FALSE, Pred(Pow2(f.p)), f.top),
      pinf |-> Some(Inf(FALSE)), ninf |-> Some(Inf(TRUE)), nan |-> Some([t |-> "flt", c |-> "nan", g |-> FALSE, m |-> <<0>>, e |-> 0]),
      pzero |-> Some([t |-> "flt", c |-> "fin", g |-> FALSE, m |-> <<0>>, e |-> 0]), nzero |-> Some([t |-> "flt", c |-> "fin", g |-> TRUE, m |-> <<0>>, e |-> 0]),
      eps |-> Some(Fin(FALSE, <<1>>, 1 - f.p))]
Aff(s) ==
  IF s \in Ints THEN IntAff(s)
  ELSE IF s \in {"f32", "f64"} THEN FloatAff(s)
  ELSE [a |-> CASE s \in {"unit", "PhU8", "PhNo"} -> "empty" [] s = "bool" -> "bool" [] s = "char" -> "char"
                [] s \in {"String", "Str", "CowStr"} -> "string" [] s \in {"PathBuf", "PathRef"} -> "path"
                [] s \in {"Ipv4Addr", "Ipv6Addr", "IpAddr"} -> "ip" [] s = "SocketAddr" -> "sock" [] s = "Tk" -> "opaque"]

----------------------------------------------------------------------------
(* what is wrong with a description: names of its parts *)
N(b) == IF b THEN 1 ELSE 0
Say(ok, what) == IF ok THEN {} ELSE {what}
FieldWrong(f, o) ==
  Say(o.n = f.dn, "name") \cup Say(o.sh = f.sh, "type") \cup Say(o.sens = N(f.sens) /\ o.flag = f.sens, "sensitive")
  \cup Say(o.ren = (IF f.ren THEN <<f.key>> ELSE <<>>), "rename") \cup Say(o.arb = f.arb /\ o.rest = 0, "attributes") \cup Say(o.doc = f.doc, "doc")
  \cup Say(o.def = (IF f.def = "none" THEN <<>> ELSE IF f.def = "own" THEN <<"own">> ELSE <<"fn">>), "default")
FieldsWrong(fs, os, offs, from, sizes, size, known) ==  \* known: the offsets there have to be, or none
  IF Len(os) # Len(fs) THEN {"fields"}
  ELSE UNION {FieldWrong(fs[i], os[i]) : i \in DOMAIN fs}
       \cup Say(Apart([i \in DOMAIN os |-> os[i].off], sizes, from, size), "offsets")
       \cup Say(known => \A i \in DOMAIN fs : os[i].off = offs[i], "offset")

VKind(k) == CASE k = "unit" -> "unit" [] k = "tuple" -> "tuple" [] k = "struct" -> "struct"
EnumRepr(repr) == IF repr = "C" THEN "u32" ELSE repr

PtrOf(t, flags, known, weak, strong, can) ==
  [k |-> "ptr", t |-> t, flags |-> flags, known |-> known, weak |-> weak, strong |-> strong, can |-> can]
(* upgrade, downgrade, borrow, new, lock, read, write *)
ArcCan == <<FALSE, TRUE, TRUE, TRUE, FALSE, FALSE, FALSE>>
WeakCan == <<TRUE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>
OpaqueCan == <<FALSE, FALSE, TRUE, TRUE, FALSE, FALSE, FALSE>>

DefWrong(sh, o) ==
  LET S == Shapes[sh]  d == o.d IN
  CASE K(sh) = "scalar" -> Say(d.k = "scalar", "kind") \cup (IF d.k = "scalar" THEN Say(d.aff = Aff(S.s), "affinity") ELSE {})
    [] K(sh) = "list" -> Say(d = [k |-> "list", t |-> S.t], "definition")
    [] K(sh) = "slice" -> Say(d = [k |-> "slice", t |-> S.t], "definition")
    [] K(sh) = "option" -> Say(d = [k |-> "option", t |-> S.t], "definition")
    [] K(sh) = "map" -> Say(d = [k |-> "map", kt |-> S.kt, vt |-> S.vt], "definition")
    [] K(sh) = "array" -> Say(d = [k |-> "array", t |-> S.t, n |-> S.n], "definition") \cup Say(o.nsz = S.n * o.nt[1] /\ o.nal = o.nt[2], "layout of arrays")
    [] K(sh) = "arc" -> Say(d = PtrOf(S.t, 2, "Some(Arc)", <<"Some(ArcWeak)", S.t, 0, sh>>, <<>>, ArcCan), "definition")
    [] K(sh) = "weak" -> Say(d = PtrOf(S.t, 3, "Some(ArcWeak)", <<>>, <<"Some(Arc)", S.t, sh, 0>>, WeakCan), "definition")
    [] K(sh) = "opaque" -> Say(d = PtrOf(0, 2, "Some(Arc)", <<>>, <<>>, OpaqueCan), "definition")
    [] K(sh) = "struct" ->
         IF d.k # "struct" THEN {"kind"}
         ELSE LET own == S.sk # "tuple"
                  c == own /\ S.clay
                  lay == CLay(o.nf, <<>>, 0, 1)
                  al == IF own THEN Max2(S.al, lay.al) ELSE 1
              IN Say(d.sk = S.sk, "kind")
                 \cup FieldsWrong(S.f, d.f, IF own THEN o.noff ELSE <<>>, 0, o.nf, o.nsz, own)
                 \cup (IF c THEN Say(o.noff = lay.offs /\ o.nal = al /\ o.nsz = Up(lay.end, al), "layout of C structs") ELSE {})
                 \cup (IF own /\ S.transparent THEN Say(<<o.nsz, o.nal>> = o.nf[1], "layout of transparent structs") ELSE {})
                 \cup Say(o.inv = (own /\ Len(S.inv) > 0), "invariants")
    [] K(sh) = "enum" ->
         IF d.k # "enum" THEN {"kind"}
         ELSE LET lay == EnumLay(S.repr, S.clay, o.nv) IN
              Say(d.repr = EnumRepr(S.repr), "representation")
              \cup Say(o.nsz = lay.sz /\ o.nal = lay.al, "layout of enums")
              \cup (IF Len(d.vs) # Len(S.vs) THEN {"variants"}
                    ELSE UNION {LET v == S.vs[i]  w == d.vs[i] IN
                           Say(w.n = v.key, "variant name") \cup Say(w.disc = v.disc /\ ~w.g, "discriminant") \cup Say(w.kind = VKind(v.kind), "variant kind")
                           \cup Say(w.doc = v.doc, "variant doc") \cup FieldsWrong(v.f, w.f, lay.offs[i], Tag(S.repr), o.nv[i], o.nsz, TRUE)
                         : i \in DOMAIN S.vs})
Wrong(sh, o) ==
  LET S == Shapes[sh]
      decl == K(sh) \in {"struct", "enum"} /\ (K(sh) = "enum" \/ S.sk # "tuple")
  IN Say(o.tn = S.tn, "type name")
     \cup Say(o.sz = o.nsz, "size") \cup Say(o.al = o.nal, "alignment") \cup Say(S.sz > 0 => o.nsz = S.sz, "size of scalars")
     \cup Say(o.tp = S.tp, "type parameters") \cup Say(o.doc = S.doc, "documentation")
     \cup Say(o.deny = N(decl /\ S.deny), "deny_unknown_fields") \cup Say(o.dflt = N(decl /\ S.dflt), "default of the container")
     \cup Say(o.rest = 0, "other attributes") \cup Say(o.arb = (IF decl THEN S.arb ELSE <<>>), "container attributes")
     \cup Say(K(sh) # "struct" => ~o.inv, "invariants")
     \cup Say(K(sh) # "slice" => o.drop, "drop")
     \cup DefWrong(sh, o)
=============================================================================
