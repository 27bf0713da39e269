--------------------------------- MODULE Ptr ---------------------------------
(* Reference-counted pointers, as operated through their shapes.

   A state: the allocations made so far, what N places hold, the number of the next tracked value, and the
   tracked values dropped, in order. An allocation: its strong and weak counts and the value put into it
   (which is gone once the strong count is 0). A place is empty or holds a strong pointer, a weak pointer,
   a strong pointer of a type that does not tell what it points to, or a plain (not counted) pointer;
   c is its allocation, 0 for a weak pointer made from nothing. *)
EXTENDS Values

Empty_ == [k |-> "", c |-> 0]
Slot(k, c) == [k |-> k, c |-> c]
Ptr0(N) == [cells |-> <<>>, slots |-> [i \in 1..N |-> Empty_], next |-> 1, dropped |-> <<>>]

Free(st) == {i \in DOMAIN st.slots : st.slots[i].k = ""}
First(st) == CHOOSE i \in Free(st) : \A j \in Free(st) : i <= j
Alive(st, c) == c # 0 /\ st.cells[c].s > 0

(* what can be done: [o, i] - i is the place it is done to *)
Ops(st) ==
  LET room == Free(st) # {}
      at(k) == {i \in DOMAIN st.slots : st.slots[i].k = k}
      on(o, is) == {[o |-> o, i |-> i] : i \in is}
      strong == at("strong")  weak == at("weak")  opaque == at("opaque")
      plain == {i \in at("plain") : Alive(st, st.slots[i].c)}
  IN (IF room THEN on("new", {0}) \cup on("newo", {0}) \cup on("none", {0})
                   \cup on("clone", strong \cup weak \cup opaque \cup at("plain")) \cup on("down", strong) \cup on("up", weak)
                   \cup on("hide", strong) \cup on("plain", strong)
      ELSE {})
     \cup on("borrow", strong \cup opaque \cup plain)
     \cup on("drop", strong \cup weak \cup opaque \cup at("plain"))

Put_(st, s) == [st EXCEPT !.slots[First(st)] = s]
More(st, c, f) == [st EXCEPT !.cells[c] = IF f = "s" THEN [@ EXCEPT !.s = @ + 1] ELSE [@ EXCEPT !.w = @ + 1]]
(* a pointer of kind k to allocation c comes into being in the first empty place *)
Add(st, k, c) ==
  Put_(CASE k \in {"strong", "opaque"} -> More(st, c, "s") [] k = "weak" /\ c # 0 -> More(st, c, "w") [] OTHER -> st, Slot(k, c))
(* a new allocation for a value v *)
Alloc(st, k, v) ==
  LET x == Renew(v, st.next) IN
  Put_([st EXCEPT !.cells = Append(@, [s |-> 1, w |-> 0, v |-> x]), !.next = @ + Len(Toks(x))], Slot(k, Len(st.cells) + 1))
(* the pointer in place i goes away; with the last strong one goes the value *)
Remove(st, i) ==
  LET p == st.slots[i]
      e == [st EXCEPT !.slots[i] = Empty_]
  IN CASE p.k \in {"strong", "opaque"} ->
            LET d == [e EXCEPT !.cells[p.c].s = @ - 1] IN
            IF d.cells[p.c].s = 0 THEN [d EXCEPT !.dropped = @ \o Toks(d.cells[p.c].v)] ELSE d
       [] p.k = "weak" /\ p.c # 0 -> [e EXCEPT !.cells[p.c].w = @ - 1]
       [] OTHER -> e

(* the state after an operation; v is what a new allocation is made for *)
After(st, op, v) ==
  LET p == IF op.i = 0 THEN Empty_ ELSE st.slots[op.i] IN
  CASE op.o = "new" -> Alloc(st, "strong", v)
    [] op.o = "newo" -> Alloc(st, "opaque", v)
    [] op.o = "none" -> Add(st, "weak", 0)
    [] op.o = "clone" -> Add(st, p.k, p.c)
    [] op.o = "down" -> Add(st, "weak", p.c)
    [] op.o = "up" -> IF Alive(st, p.c) THEN Add(st, "strong", p.c) ELSE st
    [] op.o = "hide" -> Add(st, "opaque", p.c)
    [] op.o = "plain" -> Add(st, "plain", p.c)
    [] op.o = "borrow" -> st
    [] op.o = "drop" -> Remove(st, op.i)

(* what is seen of a state: kind and counts of every place, and the tracked values that live *)
Seen(st) ==
  LET cnt(p) == IF p.k = "plain" THEN <<0, 0>> ELSE IF Alive(st, p.c) THEN <<st.cells[p.c].s, st.cells[p.c].w>> ELSE <<0, 0>>
      gone == {st.dropped[i] : i \in DOMAIN st.dropped}
  IN [p |-> [i \in DOMAIN st.slots |-> <<st.slots[i].k>> \o cnt(st.slots[i])],
      live |-> SelectSeq([i \in 1..(st.next - 1) |-> i], LAMBDA i : i \notin gone)]
(* an operation with all that is to be observed of it *)
Observed(st, op, v) ==
  LET a == After(st, op, v) IN
  op @@ [r |-> IF op.o = "up" /\ ~Alive(st, st.slots[op.i].c) THEN 0 ELSE 1, s |-> Seen(a)]
     @@ (IF op.o = "borrow" THEN [v |-> st.cells[st.slots[op.i].c].v] ELSE <<>>)

(* what keeps the counts right: every pointer is counted where it points, values are dropped once,
   and exactly those live whose allocation is held by a strong pointer *)
Counts(st) == \A c \in DOMAIN st.cells :
  /\ st.cells[c].s = Cardinality({i \in DOMAIN st.slots : st.slots[i].k \in {"strong", "opaque"} /\ st.slots[i].c = c})
  /\ st.cells[c].w = Cardinality({i \in DOMAIN st.slots : st.slots[i].k = "weak" /\ st.slots[i].c = c})
Once(st) == \A i, j \in DOMAIN st.dropped : st.dropped[i] = st.dropped[j] => i = j
Kept(st) == {t \in 1..(st.next - 1) : t \notin {st.dropped[i] : i \in DOMAIN st.dropped}}
            = UNION {TokSet(st.cells[c].v) : c \in {d \in DOMAIN st.cells : st.cells[d].s > 0}}
=============================================================================
