-------------------------------- MODULE View --------------------------------
(* What walking a value through the reflective reader has to show: a function of the value. *)
EXTENDS Ops

Can(sh) == CASE K(sh) \in {"struct", "enum", "map", "list", "option"} -> <<K(sh)>> [] K(sh) \in {"arc", "weak", "opaque"} -> <<"ptr">> [] OTHER -> <<>>
ScalarName(sh) ==
  LET some(n) == "Some(" \o n \o ")"  s == Scalar(sh) IN
  IF s \in {"unit", "bool", "String", "Str", "CowStr", "f32", "f64", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize",
            "SocketAddr", "IpAddr", "Ipv4Addr", "Ipv6Addr"}
  THEN some(CASE s = "unit" -> "Unit" [] s = "bool" -> "Bool" [] s = "f32" -> "F32" [] s = "f64" -> "F64" [] s = "u8" -> "U8" [] s = "u16" -> "U16" [] s = "u32" -> "U32"
              [] s = "u64" -> "U64" [] s = "usize" -> "USize" [] s = "i8" -> "I8" [] s = "i16" -> "I16" [] s = "i32" -> "I32" [] s = "i64" -> "I64" [] s = "isize" -> "ISize" [] OTHER -> s)
  ELSE "None"

(* position i among those at, where the others there are (if any) have the same type and no size *)
At(at, i, shs) == IF i = 0 THEN at = <<>> ELSE /\ \E k \in DOMAIN at : at[k] = i /\ \A k2 \in DOMAIN at : shs[at[k2]] = shs[i]
FieldNo(fs, name) == LET is == {i \in DOMAIN fs : fs[i].dn = name} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
KeyNo(kt, e, key) == LET is == {i \in DOMAIN e : EqV(kt, e[i][1], key)} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE

RECURSIVE Bad(_, _, _, _, _), BadFields(_, _, _, _, _), BadSeq(_, _, _, _, _)
(* what is wrong about the view w of the value v of type sh, having asked for names and keys *)
BadFields(fs, f, w, names, keys) ==
  IF Len(w.f) # Len(fs) \/ Len(w.names) # Len(fs) THEN {"number of fields"}
  ELSE UNION {Bad(fs[i].sh, f[i], w.f[i], names, keys) \cup Say(w.names[i] = fs[i].dn, "field names") : i \in DOMAIN fs}
       \cup Say(w.it, "iteration over fields") \cup Say(w.out, "fields out of range")
       \cup Say(\A q \in DOMAIN names : At(w.by[q], FieldNo(fs, names[q]), [i \in DOMAIN fs |-> fs[i].sh]), "fields by name")
BadSeq(t, e, w, names, keys) ==
  IF Len(w.e) # Len(e) \/ w.n # Len(e) THEN {"length"}
  ELSE UNION {Bad(t, e[i], w.e[i], names, keys) : i \in DOMAIN e} \cup Say(w.out, "elements out of range")
Bad(sh, v, w, names, keys) ==
  LET S == Shapes[sh] IN
  IF w.sh # sh THEN {"type"}
  ELSE Say(w.as = Can(sh), "kind") \cup Say(w.sc = ScalarName(sh), "scalar type") \cup
  (CASE K(sh) = "scalar" -> Say(w.v = v, "value")
     [] K(sh) = "struct" -> Say(w.n = Len(S.f), "field count") \cup BadFields(S.f, v.f, w, names, keys)
     [] K(sh) = "enum" ->
          LET V == S.vs[v.i] IN
          Say(w.i = v.i /\ w.active /\ w.name = V.key, "active variant") \cup Say(w.disc = V.disc /\ ~w.g, "discriminant")
          \cup Say(w.count = Len(S.vs) /\ w.vnames = [i \in DOMAIN S.vs |-> S.vs[i].key], "variants")
          \cup (IF w.i = v.i THEN BadFields(V.f, v.f, w, names, keys) ELSE {})
     [] K(sh) = "list" -> Say(w.empty = (v.e = <<>>), "emptiness") \cup Say(w.it, "iteration over elements") \cup BadSeq(S.t, v.e, w, names, keys)
     [] K(sh) \in {"array", "slice"} -> BadSeq(S.t, v.e, w, names, keys)
     [] K(sh) = "option" -> Say(w.some = (v.t = "some") /\ w.none = (v.t = "none") /\ ("x" \in DOMAIN w) = (v.t = "some"), "presence")
                            \cup (IF v.t = "some" /\ "x" \in DOMAIN w THEN Bad(S.t, v.x, w.x, names, keys) ELSE {})
     [] K(sh) = "arc" -> IF "x" \notin DOMAIN w THEN {"pointee"} ELSE Bad(S.t, v.x, w.x, names, keys)
     [] K(sh) \in {"weak", "opaque"} -> Say("x" \notin DOMAIN w, "pointee")
     [] K(sh) = "map" ->
          IF Len(w.e) # Len(v.e) \/ w.n # Len(v.e) THEN {"number of entries"}
          ELSE LET entry(j) == {i \in DOMAIN v.e : Bad(S.kt, v.e[i][1], w.e[j][1], names, keys) = {}}
                   at == [j \in DOMAIN w.e |-> IF entry(j) = {} THEN 0 ELSE CHOOSE i \in entry(j) : TRUE]  \* which entry is shown there
               IN IF {at[j] : j \in DOMAIN w.e} # DOMAIN v.e THEN {"keys"}
                  ELSE UNION {Bad(S.vt, v.e[at[j]][2], w.e[j][2], names, keys) : j \in DOMAIN w.e}
                       \cup Say(w.empty = (v.e = <<>>), "emptiness") \cup Say(w.it, "iteration over entries")
                       \cup Say(S.mk = "BTreeMap" => [j \in DOMAIN w.e |-> v.e[at[j]]] = Sorted(S.kt, v.e), "order of entries")
                       \cup Say(\A q \in DOMAIN keys : \A p \in DOMAIN keys[q].e :
                                  LET i == IF keys[q].sh = S.kt THEN KeyNo(S.kt, v.e, keys[q].e[p]) ELSE 0
                                      l == w.look[q][p]
                                      j == IF i = 0 THEN 0 ELSE CHOOSE k \in DOMAIN w.e : at[k] = i
                                  IN l.has = (i # 0) /\ l.none = (i = 0) /\ At(l.at, j, [k \in DOMAIN w.e |-> S.vt]) ,
                                "lookups"))
Wrong_(c, o) == Bad(c.sh, Renew(c.v, 1), o.w, c.names, c.keys)
=============================================================================
