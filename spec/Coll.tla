-------------------------------- MODULE Coll --------------------------------
(* Lists, maps and options, as edited and asked through their shapes.

   A state: what each of a few places holds (a value, or No where nothing is), and the number of the next
   tracked value. What is put in has moved: it is dropped with what holds it, or when something else takes
   its place. *)
EXTENDS Ops

Coll0(N) == [at |-> [i \in 1..N |-> No], next |-> 1]
Collection(sh) == K(sh) \in {"list", "map", "option"}
Holds(st, i) == ~IsNo(st.at[i])
Rooms(st) == {i \in DOMAIN st.at : ~Holds(st, i)}
Room_(st) == CHOOSE i \in Rooms(st) : \A j \in Rooms(st) : i <= j

(* (which entry of a hash map is cloned first is its own affair) *)
RECURSIVE Tame(_)
Tame(v) ==
  CASE v.t = "some" -> Tame(v.x)
    [] v.t \in {"list", "arr"} -> \A i \in DOMAIN v.e : Tame(v.e[i])
    [] v.t = "map" -> OwnToks(v) = <<>>
    [] v.t \in {"st", "en"} -> \A i \in DOMAIN v.f : Tame(v.f[i])
    [] OTHER -> TRUE

(* what can be done to places holding values of type sh: [o, i] - i is the place (0: the first empty one) *)
Steps_(sh, st) ==
  LET held == {i \in DOMAIN st.at : Holds(st, i)}
      make(os) == IF Rooms(st) = {} THEN {} ELSE {[o |-> o, i |-> 0] : o \in os}
      on(os) == {[o |-> o, i |-> i] : o \in os, i \in held}
  IN (CASE K(sh) = "list" -> make({"init"}) \cup on({"push", "get"})
        [] K(sh) = "map" -> make({"init"}) \cup on({"insert", "look", "iter"})
        [] K(sh) = "option" -> make({"none", "some"}) \cup on({"set", "unset", "get"}))
     \cup (IF Offers(sh, "Default") THEN make({"default"}) ELSE {})
     \cup (IF Offers(sh, "Clone") /\ Rooms(st) # {} THEN {[o |-> "clone", i |-> i] : i \in {j \in held : Tame(st.at[j])}} ELSE {})
     \cup on({"len", "drop"})

(* what an operation is given: x, an element; k, a key; n, an index, capacity or number of steps *)
NeedsX(o) == o \in {"push", "insert", "some", "set"}
NeedsK(o) == o \in {"insert", "look"}
ElemOf(sh) == IF K(sh) = "map" THEN Shapes[sh].vt ELSE Shapes[sh].t

Find(sh, v, k) == LET is == {i \in DOMAIN v.e : EqV(Shapes[sh].kt, v.e[i][1], k)} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
New_(st, v) == [st EXCEPT !.at[Room_(st)] = v]
(* the state after an operation; x and k already carry the numbers of their tracked values *)
AfterC(sh, st, op, x, k) ==
  LET v == IF op.i = 0 THEN No ELSE st.at[op.i] IN
  CASE op.o = "init" -> New_(st, IF K(sh) = "list" THEN List(<<>>) ELSE Map(<<>>))
    [] op.o = "default" -> New_(st, DefaultOf(sh))
    [] op.o = "none" -> New_(st, None)
    [] op.o = "some" -> New_(st, Some(x))
    [] op.o = "clone" -> [New_(st, CloneV(v, st.next)) EXCEPT !.next = @ + Len(OwnToks(v))]
    [] op.o = "push" -> [st EXCEPT !.at[op.i].e = Append(@, x)]
    [] op.o = "insert" -> LET f == Find(sh, v, k) IN
         (* a key that is there already stays *)
         IF f = 0 THEN [st EXCEPT !.at[op.i].e = Append(@, <<k, x>>)] ELSE [st EXCEPT !.at[op.i].e[f] = <<v.e[f][1], x>>]
    [] op.o = "set" -> [st EXCEPT !.at[op.i] = Some(x)]
    [] op.o = "unset" -> [st EXCEPT !.at[op.i] = None]
    [] op.o = "drop" -> [st EXCEPT !.at[op.i] = No]
    [] OTHER -> st
(* what an operation answers *)
Answer(sh, st, op, k, n) ==
  LET v == IF op.i = 0 THEN No ELSE st.at[op.i]
      none == [r |-> 0]
  IN CASE op.o = "get" /\ K(sh) = "list" -> IF n < Len(v.e) THEN [r |-> 1, v |-> v.e[n + 1]] ELSE none
       [] op.o = "get" /\ K(sh) = "option" -> IF v.t = "some" THEN [r |-> 1, v |-> v.x] ELSE none
       [] op.o = "look" -> LET f == Find(sh, v, k) IN IF f = 0 THEN none ELSE [r |-> 1, v |-> v.e[f][2]]
       [] op.o = "len" -> [r |-> IF K(sh) = "option" THEN (IF v.t = "some" THEN 1 ELSE 0) ELSE Len(v.e)]
       [] op.o = "iter" -> [r |-> IF n < Len(v.e) THEN n ELSE Len(v.e)]
       [] OTHER -> [r |-> 1]

LiveToks(st) == UNION {TokSet(st.at[i]) : i \in {j \in DOMAIN st.at : Holds(st, j)}}
SeenC(st) ==
  [p |-> [i \in DOMAIN st.at |-> IF Holds(st, i) THEN st.at[i] ELSE [t |-> ""]],
   live |-> SelectSeq([i \in 1..(st.next - 1) |-> i], LAMBDA i : i \in LiveToks(st))]
(* one step: the next state, and the operation with all that is to be observed of it *)
StepC(sh, st, op, x0, k0, n) ==
  LET k == IF NeedsK(op.o) THEN Renew(k0, st.next) ELSE No
      m == st.next + (IF NeedsK(op.o) THEN Len(Toks(k)) ELSE 0)
      x == IF NeedsX(op.o) THEN Renew(x0, m) ELSE No
      after == AfterC(sh, [st EXCEPT !.next = m + (IF NeedsX(op.o) THEN Len(Toks(x)) ELSE 0)], op, x, k)
  IN [st |-> after,
      ob |-> op @@ [n |-> n, a |-> Answer(sh, st, op, k, n), s |-> SeenC(after)]
                @@ (IF NeedsK(op.o) THEN [k |-> k0] ELSE <<>>) @@ (IF NeedsX(op.o) THEN [x |-> x0] ELSE <<>>)]

(* nothing is in two places, and keys are distinct *)
Apart(sh, st) == \A i, j \in DOMAIN st.at : (i # j /\ Holds(st, i) /\ Holds(st, j)) => \A a \in DOMAIN OwnToks(st.at[i]), b \in DOMAIN OwnToks(st.at[j]) : OwnToks(st.at[i])[a] # OwnToks(st.at[j])[b]
KeysApart(sh, st) == K(sh) = "map" => \A i \in DOMAIN st.at : Holds(st, i) => \A a, b \in DOMAIN st.at[i].e : a # b => ~EqV(Shapes[sh].kt, st.at[i].e[a][1], st.at[i].e[b][1])
=============================================================================
