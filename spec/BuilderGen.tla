----------------------------- MODULE BuilderGen -----------------------------
(* Behaviours of the builder, each written out with what has to be observed along it, to be replayed
   on the real one. The history is part of the state, so breadth-first search visits every sequence
   of steps up to MaxSteps, and -simulate draws long random ones. *)
EXTENDS Builder, Json

CONSTANTS Roots,      \* root types (names)
          MaxSteps,   \* steps before the builder is finished or dropped
          RejectPct,  \* 100: every step is explored in every state; 200: every accepted step;
                      \* less: random walks, refused that often (in %)
          Rich,       \* use all step kinds (not only the essential ones)
          FanPct,     \* of so many states (in %) on a random walk, every step there is is tried, accepted or refused
          Omit        \* instead: give all fields of the root but one, in this order ("up", "down"; else "no")

VARIABLES rootsh, w, phase, val, hist, skip
vars == <<rootsh, w, phase, val, hist, skip>>
\* phase: "run", then "built" (val is the value in hand), then "end"

Idx(ty) == CHOOSE i \in DOMAIN Shapes : Shapes[i].ty = ty
CanonTab == [i \in DOMAIN Shapes |-> Canon(i)]
ShU8 == Idx("u8")  ShStr == Idx("String")  ShTk == Idx("Tk")  ShVecTk == Idx("Vec<Tk>")

Init == /\ rootsh \in {Idx(r) : r \in Roots}
        /\ w = Init0(rootsh)
        /\ phase = "run" /\ val = Null
        /\ hist = <<>>
        /\ skip \in IF Omit = "no" THEN {0} ELSE 0..Len(Shapes[rootsh].f)

Rec(op, ok, st) == IF ok THEN op @@ [r |-> 1, s |-> Report(st)] ELSE op @@ [r |-> 0]

Step(op, accepted) ==
  LET res == Apply(w, op) IN
  /\ phase = "run"
  /\ Len(hist) < MaxSteps
  /\ res.ok = accepted
  /\ w' = res.w
  /\ phase' = IF res.ok THEN "run" ELSE "end"
  /\ hist' = Append(hist, Rec(op, res.ok, res.w))
  /\ UNCHANGED <<rootsh, val, skip>>

(* names that are nearly a name *)
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Cased(c, from, to) == LET is == {i \in 1..26 : from[i] = c} IN IF is = {} THEN c ELSE to[CHOOSE i \in is : TRUE]
RECURSIVE Recase(_, _, _)
Recase(s, from, to) == IF s = "" THEN "" ELSE Cased(SubSeq(s, 1, 1), from, to) \o Recase(SubSeq(s, 2, Len(s)), from, to)
Near(s) == {s \o "_", s \o s, " " \o s, "r#" \o s, SubSeq(s, 2, Len(s)), SubSeq(s, 1, Len(s) - 1), Recase(s, Lower, Upper), Recase(s, Upper, Lower),
            Recase(SubSeq(s, 1, 1), Lower, Upper) \o SubSeq(s, 2, Len(s))}
NearAny(ns) == ns \cup {"", "0", "1"} \cup UNION {Near(s) : s \in ns}

(* arguments worth trying in the current state *)
TopK == IF Empty(w) THEN "nothing" ELSE K(Top(w).sh)
NF == IF Empty(w) THEN 0 ELSE Len(FieldsOf(Top(w).sh, Top(w).pv))
NVs == IF TopK = "enum" THEN Len(Shapes[Top(w).sh].vs) ELSE 0
(* two values for small integers, so that keys collide or differ and invariants hold or not *)
ValuesOf(sh) == IF sh = ShU8 THEN {Num(1), Num(2)} ELSE {CanonTab[sh]}
PutShapes == IF Empty(w) THEN {ShTk}
             ELSE {Top(w).sh, ShTk, ShU8}
                  \cup (IF TopK = "option" THEN {Shapes[Top(w).sh].t} ELSE {})
                  \cup (IF Rich /\ TopK = "struct" /\ NF = 1 THEN {Shapes[Top(w).sh].f[1].sh} ELSE {})

Field(acc)   == \E i \in 1..(NF + 1) : Step([o |-> "field", i |-> i], acc)
FieldN(acc)  == /\ Rich
                /\ \/ \E i \in 1..NF : Step([o |-> "fieldn", n |-> FieldsOf(Top(w).sh, Top(w).pv)[i].n], acc)
                   \/ Step([o |-> "fieldn", n |-> "nope"], acc)
Variant(acc) == \E i \in 1..(NVs + 1) : Step([o |-> "variant", i |-> i], acc)
VariantN(acc) == /\ Rich
                 /\ \/ \E i \in 1..NVs : Step([o |-> "variantn", n |-> Shapes[Top(w).sh].vs[i].n], acc)
                    \/ Step([o |-> "variantn", n |-> "Nope"], acc)
Put(acc)     == \E sh \in PutShapes : \E v \in ValuesOf(sh) : Step([o |-> "put", sh |-> sh, v |-> v], acc)
PeekAct(acc) == /\ Rich
                /\ \E sh \in PutShapes : \E v \in ValuesOf(sh) : Step([o |-> "peek", sh |-> sh, v |-> v], acc)
PutFn(acc)   == /\ Rich /\ ~Empty(w)
                /\ \E v \in ValuesOf(Top(w).sh) : Step([o |-> "putfn", sh |-> Top(w).sh, v |-> v], acc)
DefaultAct(acc) == Step([o |-> "default"], acc)
Parse(acc)   == Rich /\ \E s \in {<<55>>, <<33>>} : Step([o |-> "parse", txt |-> s], acc)
EmptyList(acc) == Step([o |-> "elist"], acc)
EmptyMap(acc) == Step([o |-> "emap"], acc)
BeginList(acc) == Step([o |-> "blist"], acc)
BeginMap(acc) == Step([o |-> "bmap"], acc)
Push(acc)    == Step([o |-> "push"], acc)
SomeAct(acc) == Step([o |-> "some"], acc)
NoneAct(acc) == Step([o |-> "none"], acc)
Key(acc)     == Step([o |-> "key"], acc)
Val(acc)     == Step([o |-> "val"], acc)
Pop(acc)     == Step([o |-> "pop"], acc)

Build ==
  LET res == DoBuild(rootsh, w) IN
  /\ phase = "run"
  /\ w' = res.w
  /\ phase' = IF res.ok THEN "built" ELSE "end"
  /\ val' = IF res.ok THEN res.val ELSE Null
  /\ hist' = Append(hist, IF res.ok THEN [o |-> "build", r |-> 1, v |-> res.val] ELSE [o |-> "build", r |-> 0])
  /\ UNCHANGED <<rootsh, skip>>
Drop ==
  /\ phase = "run" /\ hist # <<>>
  /\ w' = Abandon(w) /\ phase' = "end"
  /\ hist' = Append(hist, [o |-> "drop", r |-> 1])
  /\ UNCHANGED <<rootsh, val, skip>>
(* the finished value is taken out as its type, looked at and dropped, or asked for as another type *)
Finish(how) ==
  /\ phase = "built"
  /\ phase' = "end" /\ val' = Null
  /\ w' = [w EXCEPT !.gone = @ \cup TokSet(val)]
  /\ hist' = Append(hist, [o |-> how, r |-> IF how = "wrong" THEN 0 ELSE 1])
  /\ UNCHANGED <<rootsh, skip>>

Accepted == \/ Field(TRUE) \/ FieldN(TRUE) \/ Variant(TRUE) \/ VariantN(TRUE) \/ Put(TRUE) \/ PeekAct(TRUE)
            \/ PutFn(TRUE) \/ DefaultAct(TRUE) \/ Parse(TRUE) \/ EmptyList(TRUE) \/ EmptyMap(TRUE)
            \/ BeginList(TRUE) \/ BeginMap(TRUE) \/ Push(TRUE) \/ SomeAct(TRUE) \/ NoneAct(TRUE)
            \/ Key(TRUE) \/ Val(TRUE) \/ Pop(TRUE)
Refused  == \/ Field(FALSE) \/ FieldN(FALSE) \/ Variant(FALSE) \/ VariantN(FALSE) \/ Put(FALSE) \/ PeekAct(FALSE)
            \/ PutFn(FALSE) \/ DefaultAct(FALSE) \/ Parse(FALSE) \/ EmptyList(FALSE) \/ EmptyMap(FALSE)
            \/ BeginList(FALSE) \/ BeginMap(FALSE) \/ Push(FALSE) \/ SomeAct(FALSE) \/ NoneAct(FALSE)
            \/ Key(FALSE) \/ Val(FALSE) \/ Pop(FALSE)
Chance(p) == p >= 100 \/ (p > 0 /\ RandomElement(1..100) <= p)

(* exhaustive: every step, everywhere *)
Everywhere == \/ Accepted \/ Refused \/ Build \/ Drop
              \/ Finish("mat") \/ Finish("look") \/ Finish("wrong")

(* random, but inclined to get somewhere (for -simulate): fields not given yet are preferred, positions
   are mostly left when they are complete, and a complete value is likely to be built *)
Done == Full(Top(w).sh, Top(w).pv)
Guided ==
  \/ \E i \in 1..NF : /\ ~Full(FieldsOf(Top(w).sh, Top(w).pv)[i].sh, Top(w).pv.f[i]) \/ Chance(6)
                      /\ Step([o |-> "field", i |-> i], TRUE)
  \/ Chance(15) /\ FieldN(TRUE)
  \/ TopK = "enum" /\ (IsNo(Top(w).pv) \/ Chance(8)) /\ Variant(TRUE)
  \/ Chance(5) /\ VariantN(TRUE)
  \/ (TopK = "scalar" \/ Chance(20)) /\ Put(TRUE)
  \/ Chance(20) /\ PeekAct(TRUE)
  \/ Chance(15) /\ PutFn(TRUE)
  \/ Chance(25) /\ DefaultAct(TRUE)
  \/ Chance(25) /\ Parse(TRUE)
  \/ Chance(15) /\ (EmptyList(TRUE) \/ EmptyMap(TRUE))
  \/ Chance(30) /\ (BeginList(TRUE) \/ BeginMap(TRUE))
  \/ Push(TRUE) \/ SomeAct(TRUE) \/ Key(TRUE) \/ Val(TRUE)
  \/ Chance(30) /\ NoneAct(TRUE)
  \/ (Done \/ Chance(8)) /\ Pop(TRUE)
Somewhere ==
  IF phase = "built" THEN Finish(RandomElement({"mat", "mat", "look", "wrong"}))
  ELSE IF phase = "end" THEN FALSE
  ELSE LET c == RandomElement(1..1000) IN
    IF Len(hist) >= MaxSteps \/ Empty(w) THEN Build \/ (Chance(10) /\ Drop)
    ELSE IF c <= 10 THEN Drop
    ELSE IF c <= 20 THEN Build
    ELSE IF c <= 20 + RejectPct * 10 THEN Refused
    ELSE IF c <= 350 /\ Full(rootsh, UpAll(w).root) THEN Build
    ELSE Guided
(* all fields but one *)
OmitNext ==
  LET todo == {i \in 1..NF : i # skip /\ ~Full(FieldsOf(Top(w).sh, Top(w).pv)[i].sh, Top(w).pv.f[i])} IN
  IF phase = "built" THEN Finish("mat")
  ELSE IF phase = "end" THEN FALSE
  ELSE IF Len(w.stack) = 1
       THEN IF todo = {} THEN Build
            ELSE Step([o |-> "field", i |-> IF Omit = "up" THEN CHOOSE i \in todo : \A j \in todo : i <= j ELSE CHOOSE i \in todo : \A j \in todo : i >= j], TRUE)
       ELSE IF Done THEN Pop(TRUE) ELSE \E v \in {CanonTab[Top(w).sh]} : Step([o |-> "put", sh |-> Top(w).sh, v |-> v], TRUE)
AcceptedOnly == \/ Accepted \/ Build \/ Drop \/ Finish("mat")
Next == IF RejectPct = 200 THEN AcceptedOnly ELSE IF Omit # "no" THEN OmitNext ELSE IF RejectPct = 100 THEN Everywhere ELSE Somewhere

(* design properties, checked on every state *)
Conserved == Accounted(w, IF val = Null THEN <<>> ELSE Toks(val))
Clean == phase = "end" => w.gone = 1..(w.next - 1)
BuiltIsWhole == val # Null => Full(rootsh, val) /\ Inhabits(val, rootsh) /\ InvHolds(rootsh, val)
FramesTyped == \A i \in DOMAIN w.stack :
                 LET fr == w.stack[i] IN Full(fr.sh, fr.pv) => Inhabits(fr.pv, fr.sh)
\* writes each finished behaviour out
\* (and, now and then, every step that can be tried in a state)
Ops ==
  {[o |-> "field", i |-> i] : i \in 1..(NF + 1)}
  \cup {[o |-> "fieldn", n |-> n] : n \in NearAny({FieldsOf(Top(w).sh, Top(w).pv)[i].n : i \in 1..NF} \cup {"nope"})}
  \cup {[o |-> "variant", i |-> i] : i \in 1..(NVs + 1)}
  \cup {[o |-> "variantn", n |-> n] : n \in NearAny({Shapes[Top(w).sh].vs[i].n : i \in 1..NVs} \cup {"Nope"})}
  \cup UNION {{[o |-> p, sh |-> sh, v |-> CanonTab[sh]] : sh \in PutShapes \cup {RandomElement(DOMAIN Shapes)}} : p \in {"put", "peek"}}
  \cup (IF Empty(w) THEN {} ELSE {[o |-> "putfn", sh |-> Top(w).sh, v |-> CanonTab[Top(w).sh]]})
  \cup {[o |-> o] : o \in {"default", "elist", "emap", "blist", "bmap", "push", "some", "none", "key", "val", "pop"}}
  \cup {[o |-> "parse", txt |-> s] : s \in {<<55>>, <<33>>}}
Fan == [op \in Ops |-> LET res == Apply(w, op) IN Rec(op, res.ok, res.w)]
Emit == /\ phase = "end" => PrintT(ToJson([root |-> rootsh, steps |-> hist]))
        /\ phase = "run" /\ FanPct > 0 /\ Chance(FanPct) =>
             LET f == Fan IN PrintT(ToJson([root |-> rootsh, steps |-> hist, fan |-> {f[op] : op \in DOMAIN f}]))
=============================================================================
