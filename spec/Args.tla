-------------------------------- MODULE Args --------------------------------
(* Command-line arguments: a machine that takes one argument after the other. It either fills the fields of
   the struct or refuses; refusing is final. Arguments are texts.

   state: [s |-> "ok" | "may" | "no" | "any", v |-> the values of the fields (No where not given), want |-> field whose value comes next or 0] *)
EXTENDS Data

Start(sh) == [s |-> "ok", v |-> NoFields(Shapes[sh].f), want |-> 0]
Fold(st, s) == IF s = "no" \/ st.s = "no" THEN [st EXCEPT !.s = "no"] ELSE IF s = "any" \/ st.s = "any" THEN [st EXCEPT !.s = "any"]
               ELSE IF s = "may" THEN [st EXCEPT !.s = "may"] ELSE st
Lower(c) == [i \in 1..Len(c) |-> IF c[i] \in 65..90 THEN c[i] + 32 ELSE c[i]]
Parsed(sh, c) == IF K(sh) # "scalar" THEN No_                       \* only scalars can be given
                 ELSE IF Scalar(sh) = "bool" THEN FromText(sh, Lower(c))
                 ELSE IF Scalar(sh) = "Tk" THEN Any_
                 ELSE FromText(sh, c)
(* field i gets the text c; a second one is refused or wins *)
Give(sh, st, i, c) ==
  LET r == Parsed(Shapes[sh].f[i].sh, c)
      again == ~IsNo(st.v[i])
      s1 == Fold([st EXCEPT !.want = 0], IF again /\ r.s = "ok" THEN "may" ELSE r.s)
  IN IF s1.s \in {"ok", "may"} THEN [s1 EXCEPT !.v[i] = r.v] ELSE s1
Named(sh, name) == LET at == {i \in 1..Len(Shapes[sh].f) : Shapes[sh].f[i].dn = name} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
NextPositional(sh, st) == LET at == {i \in 1..Len(Shapes[sh].f) : Shapes[sh].f[i].pos /\ IsNo(st.v[i])} IN
                          IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
(* -x for a field with that short name: not supported so far *)
IsShort(sh, c) == Len(c) >= 2 /\ c[1] = 45 /\ \E i \in 1..Len(Shapes[sh].f) : Shapes[sh].f[i].short # "" /\ c[2] \in 97..122
Take(sh, st, c) ==
  LET fs == Shapes[sh].f IN
  IF st.s \in {"no", "any"} THEN st
  ELSE IF st.want # 0 THEN Give(sh, st, st.want, c)
  ELSE IF Len(c) >= 2 /\ c[1] = 45 /\ c[2] = 45 THEN
    LET i == Named(sh, SubSeq(c, 3, Len(c))) IN
    IF i = 0 THEN Fold(st, "no")
    ELSE LET st1 == IF fs[i].long THEN st ELSE Fold(st, "may") IN      \* whether a field that is not declared to be named can be
         IF Scalar(fs[i].sh) = "bool" THEN Give(sh, st1, i, TextTrue) ELSE [st1 EXCEPT !.want = i]
  ELSE IF IsShort(sh, c) THEN Fold(st, "any")
  ELSE LET i == NextPositional(sh, st) IN IF i = 0 THEN Fold(st, "no") ELSE Give(sh, st, i, c)
(* at the end every field has to have its value; a flag that was not given is false, or missing *)
End(sh, st) ==
  LET fs == Shapes[sh].f
      miss == {i \in 1..Len(fs) : IsNo(st.v[i])}
      flag(i) == Scalar(fs[i].sh) = "bool"
      vs == [i \in 1..Len(fs) |-> IF i \in miss THEN Bool(FALSE) ELSE st.v[i]]
  IN IF st.s \in {"no", "any"} THEN [s |-> st.s]
     ELSE IF st.want # 0 \/ \E i \in miss : ~flag(i) /\ fs[i].def = "none" THEN No_
     ELSE IF \E i \in miss : ~flag(i) THEN Any_
     ELSE [s |-> IF miss # {} THEN "may" ELSE st.s, v |-> [t |-> "st", f |-> vs]]
RECURSIVE TakeAll(_, _, _)
TakeAll(sh, st, a) == IF a = <<>> THEN st ELSE TakeAll(sh, Take(sh, st, Head(a)), Tail(a))
Read(sh, a) == IF K(sh) # "struct" THEN Any_
               ELSE LET r == End(sh, TakeAll(sh, Start(sh), a)) IN IF r.s \in {"ok", "may"} /\ ~InvHolds(sh, r.v) THEN No_ ELSE r
=============================================================================
