------------------------------ MODULE Universe ------------------------------
(* The types the specifications talk about. Written by tools/universe.py from the
   declarations in tools/types_decl.py; do not edit. A shape is an index into Shapes. *)
Shapes == <<
  (*   1 *) [k |-> "scalar", ty |-> "unit", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, s |-> "unit", doc |-> <<>>, tn |-> <<40, 41>>, sz |-> 0, tp |-> <<>>],
  (*   2 *) [k |-> "scalar", ty |-> "bool", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "bool", doc |-> <<>>, tn |-> <<98, 111, 111, 108>>, sz |-> 1, tp |-> <<>>],
  (*   3 *) [k |-> "scalar", ty |-> "f32", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd", "Display", "FromStr", "Copy"}, s |-> "f32", doc |-> <<>>, tn |-> <<102, 51, 50>>, sz |-> 4, tp |-> <<>>],
  (*   4 *) [k |-> "scalar", ty |-> "f64", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd", "Display", "FromStr", "Copy"}, s |-> "f64", doc |-> <<>>, tn |-> <<102, 54, 52>>, sz |-> 8, tp |-> <<>>],
  (*   5 *) [k |-> "scalar", ty |-> "char", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "char", doc |-> <<>>, tn |-> <<99, 104, 97, 114>>, sz |-> 4, tp |-> <<>>],
  (*   6 *) [k |-> "scalar", ty |-> "String", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr"}, s |-> "String", doc |-> <<>>, tn |-> <<83, 116, 114, 105, 110, 103>>, sz |-> 0, tp |-> <<>>],
  (*   7 *) [k |-> "scalar", ty |-> "Tk", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr"}, s |-> "Tk", doc |-> <<>>, tn |-> <<84, 107>>, sz |-> 0, tp |-> <<>>],
  (*   8 *) [k |-> "scalar", ty |-> "u8", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "u8", doc |-> <<>>, tn |-> <<117, 56>>, sz |-> 1, tp |-> <<>>],
  (*   9 *) [k |-> "scalar", ty |-> "u16", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "u16", doc |-> <<>>, tn |-> <<117, 49, 54>>, sz |-> 2, tp |-> <<>>],
  (*  10 *) [k |-> "scalar", ty |-> "u32", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "u32", doc |-> <<>>, tn |-> <<117, 51, 50>>, sz |-> 4, tp |-> <<>>],
  (*  11 *) [k |-> "scalar", ty |-> "u64", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "u64", doc |-> <<>>, tn |-> <<117, 54, 52>>, sz |-> 8, tp |-> <<>>],
  (*  12 *) [k |-> "scalar", ty |-> "u128", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "u128", doc |-> <<>>, tn |-> <<117, 49, 50, 56>>, sz |-> 16, tp |-> <<>>],
  (*  13 *) [k |-> "scalar", ty |-> "usize", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "usize", doc |-> <<>>, tn |-> <<117, 115, 105, 122, 101>>, sz |-> 8, tp |-> <<>>],
  (*  14 *) [k |-> "scalar", ty |-> "i8", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "i8", doc |-> <<>>, tn |-> <<105, 56>>, sz |-> 1, tp |-> <<>>],
  (*  15 *) [k |-> "scalar", ty |-> "i16", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "i16", doc |-> <<>>, tn |-> <<105, 49, 54>>, sz |-> 2, tp |-> <<>>],
  (*  16 *) [k |-> "scalar", ty |-> "i32", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "i32", doc |-> <<>>, tn |-> <<105, 51, 50>>, sz |-> 4, tp |-> <<>>],
  (*  17 *) [k |-> "scalar", ty |-> "i64", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "i64", doc |-> <<>>, tn |-> <<105, 54, 52>>, sz |-> 8, tp |-> <<>>],
  (*  18 *) [k |-> "scalar", ty |-> "i128", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "i128", doc |-> <<>>, tn |-> <<105, 49, 50, 56>>, sz |-> 16, tp |-> <<>>],
  (*  19 *) [k |-> "scalar", ty |-> "isize", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "isize", doc |-> <<>>, tn |-> <<105, 115, 105, 122, 101>>, sz |-> 8, tp |-> <<>>],
  (*  20 *) [k |-> "scalar", ty |-> "NonZeroU8", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroU8", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 117, 56, 62>>, sz |-> 1, tp |-> <<>>],
  (*  21 *) [k |-> "scalar", ty |-> "NonZeroU16", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroU16", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 117, 49, 54, 62>>, sz |-> 2, tp |-> <<>>],
  (*  22 *) [k |-> "scalar", ty |-> "NonZeroU32", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroU32", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 117, 51, 50, 62>>, sz |-> 4, tp |-> <<>>],
  (*  23 *) [k |-> "scalar", ty |-> "NonZeroU64", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroU64", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 117, 54, 52, 62>>, sz |-> 8, tp |-> <<>>],
  (*  24 *) [k |-> "scalar", ty |-> "NonZeroUsize", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroUsize", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 117, 115, 105, 122, 101, 62>>, sz |-> 8, tp |-> <<>>],
  (*  25 *) [k |-> "scalar", ty |-> "NonZeroI8", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroI8", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 105, 56, 62>>, sz |-> 1, tp |-> <<>>],
  (*  26 *) [k |-> "scalar", ty |-> "NonZeroI16", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroI16", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 105, 49, 54, 62>>, sz |-> 2, tp |-> <<>>],
  (*  27 *) [k |-> "scalar", ty |-> "NonZeroI32", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroI32", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 105, 51, 50, 62>>, sz |-> 4, tp |-> <<>>],
  (*  28 *) [k |-> "scalar", ty |-> "NonZeroI64", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroI64", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 105, 54, 52, 62>>, sz |-> 8, tp |-> <<>>],
  (*  29 *) [k |-> "scalar", ty |-> "NonZeroIsize", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroIsize", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 105, 115, 105, 122, 101, 62>>, sz |-> 8, tp |-> <<>>],
  (*  30 *) [k |-> "struct", ty |-> "P2", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "P2", f |-> <<[n |-> "x", sh |-> 7, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 7, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<80, 50>>, sz |-> 0, tp |-> <<>>],
  (*  31 *) [k |-> "struct", ty |-> "Mix", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Mix", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 6, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 2, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 105, 120>>, sz |-> 0, tp |-> <<>>],
  (*  32 *) [k |-> "struct", ty |-> "Tup", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "Tup", f |-> <<[n |-> "0", sh |-> 7, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<84, 117, 112>>, sz |-> 0, tp |-> <<>>],
  (*  33 *) [k |-> "struct", ty |-> "Un", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "unit", name |-> "Un", f |-> <<>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<85, 110>>, sz |-> 0, tp |-> <<>>],
  (*  34 *) [k |-> "struct", ty |-> "Nest", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Nest", f |-> <<[n |-> "p", sh |-> 30, key |-> <<112>>, dn |-> <<112>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 35, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "l", sh |-> 36, key |-> <<108>>, dn |-> <<108>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<78, 101, 115, 116>>, sz |-> 0, tp |-> <<>>],
  (*  35 *) [k |-> "option", ty |-> "Option<Tk>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 7, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 84, 107, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 7]>>],
  (*  36 *) [k |-> "list", ty |-> "Vec<Tk>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 7, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 84, 107, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 7]>>],
  (*  37 *) [k |-> "struct", ty |-> "Deep", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Deep", f |-> <<[n |-> "d", sh |-> 38, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "z", sh |-> 7, key |-> <<122>>, dn |-> <<122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 101, 101, 112>>, sz |-> 0, tp |-> <<>>],
  (*  38 *) [k |-> "struct", ty |-> "Mid", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Mid", f |-> <<[n |-> "q", sh |-> 30, key |-> <<113>>, dn |-> <<113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 7, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 105, 100>>, sz |-> 0, tp |-> <<>>],
  (*  39 *) [k |-> "enum", ty |-> "En", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "En", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<>>, f |-> <<>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 7, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 7, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "struct", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 7, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 35, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "D", key |-> <<68>>, kind |-> "tuple", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 30, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<69, 110>>, sz |-> 0, tp |-> <<>>],
  (*  40 *) [k |-> "enum", ty |-> "EnC", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "C", name |-> "EnC", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 7, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 7, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 11, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Z", key |-> <<90>>, kind |-> "unit", disc |-> <<2>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<69, 110, 67>>, sz |-> 0, tp |-> <<>>],
  (*  41 *) [k |-> "enum", ty |-> "En16", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u16", name |-> "En16", vs |-> <<[n |-> "P", key |-> <<80>>, kind |-> "unit", disc |-> <<3>>, doc |-> <<>>, f |-> <<>>], [n |-> "Q", key |-> <<81>>, kind |-> "tuple", disc |-> <<7, 0, 0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 7, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "R", key |-> <<82>>, kind |-> "struct", disc |-> <<7, 0, 1>>, doc |-> <<>>, f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 6, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "S", key |-> <<83>>, kind |-> "unit", disc |-> <<1>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<69, 110, 49, 54>>, sz |-> 0, tp |-> <<>>],
  (*  42 *) [k |-> "struct", ty |-> "HasEn", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "HasEn", f |-> <<[n |-> "e", sh |-> 39, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "t", sh |-> 7, key |-> <<116>>, dn |-> <<116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<72, 97, 115, 69, 110>>, sz |-> 0, tp |-> <<>>],
  (*  43 *) [k |-> "struct", ty |-> "Rec", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rec", f |-> <<[n |-> "v", sh |-> 7, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "kids", sh |-> 44, key |-> <<107, 105, 100, 115>>, dn |-> <<107, 105, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 101, 99>>, sz |-> 0, tp |-> <<>>],
  (*  44 *) [k |-> "list", ty |-> "Vec<Rec>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 43, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 82, 101, 99, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 43]>>],
  (*  45 *) [k |-> "struct", ty |-> "Maps", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Maps", f |-> <<[n |-> "m", sh |-> 46, key |-> <<109>>, dn |-> <<109>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 47, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 97, 112, 115>>, sz |-> 0, tp |-> <<>>],
  (*  46 *) [k |-> "map", ty |-> "HashMap<String,Tk>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 6, vt |-> 7, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 84, 107, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 7], [n |-> "S", sh |-> 0]>>],
  (*  47 *) [k |-> "map", ty |-> "HashMap<u8,P2>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, kt |-> 8, vt |-> 30, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 80, 50, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 30], [n |-> "S", sh |-> 0]>>],
  (*  48 *) [k |-> "struct", ty |-> "KeyS", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "struct", name |-> "KeyS", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 8, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<75, 101, 121, 83>>, sz |-> 0, tp |-> <<>>],
  (*  49 *) [k |-> "struct", ty |-> "Opts", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Opts", f |-> <<[n |-> "a", sh |-> 50, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 51, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 52, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 112, 116, 115>>, sz |-> 0, tp |-> <<>>],
  (*  50 *) [k |-> "option", ty |-> "Option<Option<Tk>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 35, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 79, 112, 116, 105, 111, 110, 60, 84, 107, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 35]>>],
  (*  51 *) [k |-> "option", ty |-> "Option<P2>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 30, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 80, 50, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 30]>>],
  (*  52 *) [k |-> "option", ty |-> "Option<Vec<Tk>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 36, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 86, 101, 99, 60, 84, 107, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 36]>>],
  (*  53 *) [k |-> "struct", ty |-> "Units", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Units", f |-> <<[n |-> "a", sh |-> 33, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 33, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "t", sh |-> 7, key |-> <<116>>, dn |-> <<116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<85, 110, 105, 116, 115>>, sz |-> 0, tp |-> <<>>],
  (*  54 *) [k |-> "struct", ty |-> "DefS", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, sk |-> "struct", name |-> "DefS", f |-> <<[n |-> "a", sh |-> 7, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 8, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 101, 102, 83>>, sz |-> 0, tp |-> <<>>],
  (*  55 *) [k |-> "struct", ty |-> "NoTr", traits |-> {}, sk |-> "struct", name |-> "NoTr", f |-> <<[n |-> "a", sh |-> 7, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<78, 111, 84, 114>>, sz |-> 0, tp |-> <<>>],
  (*  56 *) [k |-> "struct", ty |-> "HasNoTr", traits |-> {}, sk |-> "struct", name |-> "HasNoTr", f |-> <<[n |-> "n", sh |-> 55, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 57, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 58, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<72, 97, 115, 78, 111, 84, 114>>, sz |-> 0, tp |-> <<>>],
  (*  57 *) [k |-> "option", ty |-> "Option<NoTr>", traits |-> {"Default"}, t |-> 55, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 78, 111, 84, 114, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 55]>>],
  (*  58 *) [k |-> "list", ty |-> "Vec<NoTr>", traits |-> {"Default"}, t |-> 55, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 78, 111, 84, 114, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 55]>>],
  (*  59 *) [k |-> "struct", ty |-> "W64", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "W64", f |-> <<[n |-> "f0", sh |-> 8, key |-> <<102, 48>>, dn |-> <<102, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f1", sh |-> 8, key |-> <<102, 49>>, dn |-> <<102, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f2", sh |-> 8, key |-> <<102, 50>>, dn |-> <<102, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f3", sh |-> 8, key |-> <<102, 51>>, dn |-> <<102, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f4", sh |-> 8, key |-> <<102, 52>>, dn |-> <<102, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f5", sh |-> 8, key |-> <<102, 53>>, dn |-> <<102, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f6", sh |-> 8, key |-> <<102, 54>>, dn |-> <<102, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f7", sh |-> 8, key |-> <<102, 55>>, dn |-> <<102, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f8", sh |-> 8, key |-> <<102, 56>>, dn |-> <<102, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f9", sh |-> 8, key |-> <<102, 57>>, dn |-> <<102, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f10", sh |-> 8, key |-> <<102, 49, 48>>, dn |-> <<102, 49, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f11", sh |-> 8, key |-> <<102, 49, 49>>, dn |-> <<102, 49, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f12", sh |-> 8, key |-> <<102, 49, 50>>, dn |-> <<102, 49, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f13", sh |-> 8, key |-> <<102, 49, 51>>, dn |-> <<102, 49, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f14", sh |-> 8, key |-> <<102, 49, 52>>, dn |-> <<102, 49, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f15", sh |-> 8, key |-> <<102, 49, 53>>, dn |-> <<102, 49, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f16", sh |-> 8, key |-> <<102, 49, 54>>, dn |-> <<102, 49, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f17", sh |-> 8, key |-> <<102, 49, 55>>, dn |-> <<102, 49, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f18", sh |-> 8, key |-> <<102, 49, 56>>, dn |-> <<102, 49, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f19", sh |-> 8, key |-> <<102, 49, 57>>, dn |-> <<102, 49, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f20", sh |-> 8, key |-> <<102, 50, 48>>, dn |-> <<102, 50, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f21", sh |-> 8, key |-> <<102, 50, 49>>, dn |-> <<102, 50, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f22", sh |-> 8, key |-> <<102, 50, 50>>, dn |-> <<102, 50, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f23", sh |-> 8, key |-> <<102, 50, 51>>, dn |-> <<102, 50, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f24", sh |-> 8, key |-> <<102, 50, 52>>, dn |-> <<102, 50, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f25", sh |-> 8, key |-> <<102, 50, 53>>, dn |-> <<102, 50, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f26", sh |-> 8, key |-> <<102, 50, 54>>, dn |-> <<102, 50, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f27", sh |-> 8, key |-> <<102, 50, 55>>, dn |-> <<102, 50, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f28", sh |-> 8, key |-> <<102, 50, 56>>, dn |-> <<102, 50, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f29", sh |-> 8, key |-> <<102, 50, 57>>, dn |-> <<102, 50, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f30", sh |-> 8, key |-> <<102, 51, 48>>, dn |-> <<102, 51, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f31", sh |-> 8, key |-> <<102, 51, 49>>, dn |-> <<102, 51, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f32", sh |-> 8, key |-> <<102, 51, 50>>, dn |-> <<102, 51, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f33", sh |-> 8, key |-> <<102, 51, 51>>, dn |-> <<102, 51, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f34", sh |-> 8, key |-> <<102, 51, 52>>, dn |-> <<102, 51, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f35", sh |-> 8, key |-> <<102, 51, 53>>, dn |-> <<102, 51, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f36", sh |-> 8, key |-> <<102, 51, 54>>, dn |-> <<102, 51, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f37", sh |-> 8, key |-> <<102, 51, 55>>, dn |-> <<102, 51, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f38", sh |-> 8, key |-> <<102, 51, 56>>, dn |-> <<102, 51, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f39", sh |-> 8, key |-> <<102, 51, 57>>, dn |-> <<102, 51, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f40", sh |-> 8, key |-> <<102, 52, 48>>, dn |-> <<102, 52, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f41", sh |-> 8, key |-> <<102, 52, 49>>, dn |-> <<102, 52, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f42", sh |-> 8, key |-> <<102, 52, 50>>, dn |-> <<102, 52, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f43", sh |-> 8, key |-> <<102, 52, 51>>, dn |-> <<102, 52, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f44", sh |-> 8, key |-> <<102, 52, 52>>, dn |-> <<102, 52, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f45", sh |-> 8, key |-> <<102, 52, 53>>, dn |-> <<102, 52, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f46", sh |-> 8, key |-> <<102, 52, 54>>, dn |-> <<102, 52, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f47", sh |-> 8, key |-> <<102, 52, 55>>, dn |-> <<102, 52, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f48", sh |-> 8, key |-> <<102, 52, 56>>, dn |-> <<102, 52, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f49", sh |-> 8, key |-> <<102, 52, 57>>, dn |-> <<102, 52, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f50", sh |-> 8, key |-> <<102, 53, 48>>, dn |-> <<102, 53, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f51", sh |-> 8, key |-> <<102, 53, 49>>, dn |-> <<102, 53, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f52", sh |-> 8, key |-> <<102, 53, 50>>, dn |-> <<102, 53, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f53", sh |-> 8, key |-> <<102, 53, 51>>, dn |-> <<102, 53, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f54", sh |-> 8, key |-> <<102, 53, 52>>, dn |-> <<102, 53, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f55", sh |-> 8, key |-> <<102, 53, 53>>, dn |-> <<102, 53, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f56", sh |-> 8, key |-> <<102, 53, 54>>, dn |-> <<102, 53, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f57", sh |-> 8, key |-> <<102, 53, 55>>, dn |-> <<102, 53, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f58", sh |-> 8, key |-> <<102, 53, 56>>, dn |-> <<102, 53, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f59", sh |-> 8, key |-> <<102, 53, 57>>, dn |-> <<102, 53, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f60", sh |-> 8, key |-> <<102, 54, 48>>, dn |-> <<102, 54, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f61", sh |-> 8, key |-> <<102, 54, 49>>, dn |-> <<102, 54, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f62", sh |-> 8, key |-> <<102, 54, 50>>, dn |-> <<102, 54, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f63", sh |-> 8, key |-> <<102, 54, 51>>, dn |-> <<102, 54, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<87, 54, 52>>, sz |-> 0, tp |-> <<>>],
  (*  60 *) [k |-> "struct", ty |-> "W63", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "W63", f |-> <<[n |-> "f0", sh |-> 8, key |-> <<102, 48>>, dn |-> <<102, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f1", sh |-> 8, key |-> <<102, 49>>, dn |-> <<102, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f2", sh |-> 8, key |-> <<102, 50>>, dn |-> <<102, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f3", sh |-> 8, key |-> <<102, 51>>, dn |-> <<102, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f4", sh |-> 8, key |-> <<102, 52>>, dn |-> <<102, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f5", sh |-> 8, key |-> <<102, 53>>, dn |-> <<102, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f6", sh |-> 8, key |-> <<102, 54>>, dn |-> <<102, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f7", sh |-> 8, key |-> <<102, 55>>, dn |-> <<102, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f8", sh |-> 8, key |-> <<102, 56>>, dn |-> <<102, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f9", sh |-> 8, key |-> <<102, 57>>, dn |-> <<102, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f10", sh |-> 8, key |-> <<102, 49, 48>>, dn |-> <<102, 49, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f11", sh |-> 8, key |-> <<102, 49, 49>>, dn |-> <<102, 49, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f12", sh |-> 8, key |-> <<102, 49, 50>>, dn |-> <<102, 49, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f13", sh |-> 8, key |-> <<102, 49, 51>>, dn |-> <<102, 49, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f14", sh |-> 8, key |-> <<102, 49, 52>>, dn |-> <<102, 49, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f15", sh |-> 8, key |-> <<102, 49, 53>>, dn |-> <<102, 49, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f16", sh |-> 8, key |-> <<102, 49, 54>>, dn |-> <<102, 49, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f17", sh |-> 8, key |-> <<102, 49, 55>>, dn |-> <<102, 49, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f18", sh |-> 8, key |-> <<102, 49, 56>>, dn |-> <<102, 49, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f19", sh |-> 8, key |-> <<102, 49, 57>>, dn |-> <<102, 49, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f20", sh |-> 8, key |-> <<102, 50, 48>>, dn |-> <<102, 50, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f21", sh |-> 8, key |-> <<102, 50, 49>>, dn |-> <<102, 50, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f22", sh |-> 8, key |-> <<102, 50, 50>>, dn |-> <<102, 50, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f23", sh |-> 8, key |-> <<102, 50, 51>>, dn |-> <<102, 50, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f24", sh |-> 8, key |-> <<102, 50, 52>>, dn |-> <<102, 50, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f25", sh |-> 8, key |-> <<102, 50, 53>>, dn |-> <<102, 50, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f26", sh |-> 8, key |-> <<102, 50, 54>>, dn |-> <<102, 50, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f27", sh |-> 8, key |-> <<102, 50, 55>>, dn |-> <<102, 50, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f28", sh |-> 8, key |-> <<102, 50, 56>>, dn |-> <<102, 50, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f29", sh |-> 8, key |-> <<102, 50, 57>>, dn |-> <<102, 50, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f30", sh |-> 8, key |-> <<102, 51, 48>>, dn |-> <<102, 51, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f31", sh |-> 8, key |-> <<102, 51, 49>>, dn |-> <<102, 51, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f32", sh |-> 8, key |-> <<102, 51, 50>>, dn |-> <<102, 51, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f33", sh |-> 8, key |-> <<102, 51, 51>>, dn |-> <<102, 51, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f34", sh |-> 8, key |-> <<102, 51, 52>>, dn |-> <<102, 51, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f35", sh |-> 8, key |-> <<102, 51, 53>>, dn |-> <<102, 51, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f36", sh |-> 8, key |-> <<102, 51, 54>>, dn |-> <<102, 51, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f37", sh |-> 8, key |-> <<102, 51, 55>>, dn |-> <<102, 51, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f38", sh |-> 8, key |-> <<102, 51, 56>>, dn |-> <<102, 51, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f39", sh |-> 8, key |-> <<102, 51, 57>>, dn |-> <<102, 51, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f40", sh |-> 8, key |-> <<102, 52, 48>>, dn |-> <<102, 52, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f41", sh |-> 8, key |-> <<102, 52, 49>>, dn |-> <<102, 52, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f42", sh |-> 8, key |-> <<102, 52, 50>>, dn |-> <<102, 52, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f43", sh |-> 8, key |-> <<102, 52, 51>>, dn |-> <<102, 52, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f44", sh |-> 8, key |-> <<102, 52, 52>>, dn |-> <<102, 52, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f45", sh |-> 8, key |-> <<102, 52, 53>>, dn |-> <<102, 52, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f46", sh |-> 8, key |-> <<102, 52, 54>>, dn |-> <<102, 52, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f47", sh |-> 8, key |-> <<102, 52, 55>>, dn |-> <<102, 52, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f48", sh |-> 8, key |-> <<102, 52, 56>>, dn |-> <<102, 52, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f49", sh |-> 8, key |-> <<102, 52, 57>>, dn |-> <<102, 52, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f50", sh |-> 8, key |-> <<102, 53, 48>>, dn |-> <<102, 53, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f51", sh |-> 8, key |-> <<102, 53, 49>>, dn |-> <<102, 53, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f52", sh |-> 8, key |-> <<102, 53, 50>>, dn |-> <<102, 53, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f53", sh |-> 8, key |-> <<102, 53, 51>>, dn |-> <<102, 53, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f54", sh |-> 8, key |-> <<102, 53, 52>>, dn |-> <<102, 53, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f55", sh |-> 8, key |-> <<102, 53, 53>>, dn |-> <<102, 53, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f56", sh |-> 8, key |-> <<102, 53, 54>>, dn |-> <<102, 53, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f57", sh |-> 8, key |-> <<102, 53, 55>>, dn |-> <<102, 53, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f58", sh |-> 8, key |-> <<102, 53, 56>>, dn |-> <<102, 53, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f59", sh |-> 8, key |-> <<102, 53, 57>>, dn |-> <<102, 53, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f60", sh |-> 8, key |-> <<102, 54, 48>>, dn |-> <<102, 54, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f61", sh |-> 8, key |-> <<102, 54, 49>>, dn |-> <<102, 54, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f62", sh |-> 8, key |-> <<102, 54, 50>>, dn |-> <<102, 54, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<87, 54, 51>>, sz |-> 0, tp |-> <<>>],
  (*  61 *) [k |-> "struct", ty |-> "Inv", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Inv", f |-> <<[n |-> "lo", sh |-> 8, key |-> <<108, 111>>, dn |-> <<108, 111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "hi", sh |-> 8, key |-> <<104, 105>>, dn |-> <<104, 105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<"ordered">>, doc |-> <<>>, tn |-> <<73, 110, 118>>, sz |-> 0, tp |-> <<>>],
  (*  62 *) [k |-> "struct", ty |-> "Inv2", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Inv2", f |-> <<[n |-> "t", sh |-> 7, key |-> <<116>>, dn |-> <<116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "lo", sh |-> 8, key |-> <<108, 111>>, dn |-> <<108, 111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "hi", sh |-> 8, key |-> <<104, 105>>, dn |-> <<104, 105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 63, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<"ordered", "short">>, doc |-> <<>>, tn |-> <<73, 110, 118, 50>>, sz |-> 0, tp |-> <<>>],
  (*  63 *) [k |-> "list", ty |-> "Vec<u8>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 8, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 117, 56, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (*  64 *) [k |-> "struct", ty |-> "Inv3", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Inv3", f |-> <<[n |-> "n", sh |-> 9, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "s", sh |-> 6, key |-> <<115>>, dn |-> <<115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 35, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<"even", "named", "has">>, doc |-> <<>>, tn |-> <<73, 110, 118, 51>>, sz |-> 0, tp |-> <<>>],
  (*  65 *) [k |-> "struct", ty |-> "HasInv", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "HasInv", f |-> <<[n |-> "i", sh |-> 61, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "t", sh |-> 7, key |-> <<116>>, dn |-> <<116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<72, 97, 115, 73, 110, 118>>, sz |-> 0, tp |-> <<>>],
  (*  66 *) [k |-> "struct", ty |-> "Arr", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Arr", f |-> <<[n |-> "a", sh |-> 67, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "r", sh |-> 68, key |-> <<114>>, dn |-> <<114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "u", sh |-> 69, key |-> <<117>>, dn |-> <<117>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 114, 114>>, sz |-> 0, tp |-> <<>>],
  (*  67 *) [k |-> "array", ty |-> "[Tk;2]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 7, n |-> 2, doc |-> <<>>, tn |-> <<91, 84, 107, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 7]>>],
  (*  68 *) [k |-> "arc", ty |-> "Arc<Tk>", traits |-> {"Clone"}, t |-> 7, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 7]>>],
  (*  69 *) [k |-> "struct", ty |-> "(Tk,u8)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "tuple", name |-> "(Tk,u8)", f |-> <<[n |-> "0", sh |-> 7, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 84, 107, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (*  70 *) [k |-> "struct", ty |-> "Ints", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Ints", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 9, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 10, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 11, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 13, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 14, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 15, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "h", sh |-> 16, key |-> <<104>>, dn |-> <<104>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 17, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "j", sh |-> 19, key |-> <<106>>, dn |-> <<106>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<73, 110, 116, 115>>, sz |-> 0, tp |-> <<>>],
  (*  71 *) [k |-> "struct", ty |-> "Flts", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Flts", f |-> <<[n |-> "x", sh |-> 3, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 4, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<70, 108, 116, 115>>, sz |-> 0, tp |-> <<>>],
  (*  72 *) [k |-> "struct", ty |-> "NzU", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "NzU", f |-> <<[n |-> "a", sh |-> 20, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 21, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 22, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 23, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 24, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<78, 122, 85>>, sz |-> 0, tp |-> <<>>],
  (*  73 *) [k |-> "struct", ty |-> "NzI", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "NzI", f |-> <<[n |-> "f", sh |-> 25, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 26, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "h", sh |-> 27, key |-> <<104>>, dn |-> <<104>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 28, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "j", sh |-> 29, key |-> <<106>>, dn |-> <<106>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<78, 122, 73>>, sz |-> 0, tp |-> <<>>],
  (*  74 *) [k |-> "struct", ty |-> "Person", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Person", f |-> <<[n |-> "name", sh |-> 6, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "age", sh |-> 11, key |-> <<97, 103, 101>>, dn |-> <<97, 103, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ok", sh |-> 2, key |-> <<111, 107>>, dn |-> <<111, 107>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "nick", sh |-> 75, key |-> <<110, 105, 99, 107>>, dn |-> <<110, 105, 99, 107>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tags", sh |-> 76, key |-> <<116, 97, 103, 115>>, dn |-> <<116, 97, 103, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<80, 101, 114, 115, 111, 110>>, sz |-> 0, tp |-> <<>>],
  (*  75 *) [k |-> "option", ty |-> "Option<String>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 6, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 83, 116, 114, 105, 110, 103, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 6]>>],
  (*  76 *) [k |-> "list", ty |-> "Vec<String>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 6, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 83, 116, 114, 105, 110, 103, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 6]>>],
  (*  77 *) [k |-> "struct", ty |-> "Ren", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Ren", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97, 108, 112, 104, 97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 6, key |-> <<98, 101, 32, 116, 97>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 78, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 101, 110>>, sz |-> 0, tp |-> <<>>],
  (*  78 *) [k |-> "option", ty |-> "Option<i16>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 15, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 105, 49, 54, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 15]>>],
  (*  79 *) [k |-> "struct", ty |-> "DfF", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "DfF", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 6, key |-> <<98>>, dn |-> <<98>>, def |-> "mk_text", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 80, key |-> <<99>>, dn |-> <<99>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 8, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 63, key |-> <<101>>, dn |-> <<101>>, def |-> "mk_list", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 102, 70>>, sz |-> 0, tp |-> <<>>],
  (*  80 *) [k |-> "option", ty |-> "Option<u8>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 8, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 117, 56, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (*  81 *) [k |-> "struct", ty |-> "DfW", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, sk |-> "struct", name |-> "DfW", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 6, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 63, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 82, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> TRUE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 102, 87>>, sz |-> 0, tp |-> <<>>],
  (*  82 *) [k |-> "option", ty |-> "Option<i32>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 16, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 105, 51, 50, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 16]>>],
  (*  83 *) [k |-> "struct", ty |-> "Deny", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Deny", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 80, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> TRUE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 101, 110, 121>>, sz |-> 0, tp |-> <<>>],
  (*  84 *) [k |-> "struct", ty |-> "DenyD", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "DenyD", f |-> <<[n |-> "a", sh |-> 8, key |-> <<65>>, dn |-> <<97>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 6, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> TRUE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 101, 110, 121, 68>>, sz |-> 0, tp |-> <<>>],
  (*  85 *) [k |-> "struct", ty |-> "Outer", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Outer", f |-> <<[n |-> "d", sh |-> 79, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 86, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "r", sh |-> 87, key |-> <<114>>, dn |-> <<114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "q", sh |-> 88, key |-> <<113>>, dn |-> <<113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 89, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 117, 116, 101, 114>>, sz |-> 0, tp |-> <<>>],
  (*  86 *) [k |-> "list", ty |-> "Vec<DfW>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 81, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 68, 102, 87, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 81]>>],
  (*  87 *) [k |-> "option", ty |-> "Option<Ren>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 77, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 82, 101, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 77]>>],
  (*  88 *) [k |-> "option", ty |-> "Option<Option<u8>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 80, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 79, 112, 116, 105, 111, 110, 60, 117, 56, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 80]>>],
  (*  89 *) [k |-> "list", ty |-> "Vec<Vec<i32>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 90, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 86, 101, 99, 60, 105, 51, 50, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 90]>>],
  (*  90 *) [k |-> "list", ty |-> "Vec<i32>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 16, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 105, 51, 50, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 16]>>],
  (*  91 *) [k |-> "struct", ty |-> "NsD", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "NsD", f |-> <<[n |-> "d", sh |-> 83, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 92, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 8, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<78, 115, 68>>, sz |-> 0, tp |-> <<>>],
  (*  92 *) [k |-> "list", ty |-> "Vec<Deny>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 83, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 68, 101, 110, 121, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 83]>>],
  (*  93 *) [k |-> "struct", ty |-> "DnS", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "DnS", f |-> <<[n |-> "p", sh |-> 94, key |-> <<112>>, dn |-> <<112>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 95, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 84, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> TRUE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 110, 83>>, sz |-> 0, tp |-> <<>>],
  (*  94 *) [k |-> "struct", ty |-> "Flat", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Flat", f |-> <<[n |-> "k", sh |-> 6, key |-> <<107>>, dn |-> <<107>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 11, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<70, 108, 97, 116>>, sz |-> 0, tp |-> <<>>],
  (*  95 *) [k |-> "option", ty |-> "Option<DfF>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 79, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 68, 102, 70, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 79]>>],
  (*  96 *) [k |-> "struct", ty |-> "DwN", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, sk |-> "struct", name |-> "DwN", f |-> <<[n |-> "i", sh |-> 81, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 79, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "l", sh |-> 97, key |-> <<108>>, dn |-> <<108>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "k", sh |-> 6, key |-> <<107>>, dn |-> <<107>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> TRUE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 119, 78>>, sz |-> 0, tp |-> <<>>],
  (*  97 *) [k |-> "list", ty |-> "Vec<Ren>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 77, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 82, 101, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 77]>>],
  (*  98 *) [k |-> "struct", ty |-> "DfN", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "DfN", f |-> <<[n |-> "a", sh |-> 81, key |-> <<97>>, dn |-> <<97>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 95, key |-> <<98>>, dn |-> <<98>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 63, key |-> <<99>>, dn |-> <<99>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 99, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 102, 78>>, sz |-> 0, tp |-> <<>>],
  (*  99 *) [k |-> "option", ty |-> "Option<Flat>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 94, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 70, 108, 97, 116, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 94]>>],
  (* 100 *) [k |-> "struct", ty |-> "Node", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Node", f |-> <<[n |-> "v", sh |-> 17, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "kids", sh |-> 101, key |-> <<107, 105, 100, 115>>, dn |-> <<107, 105, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<78, 111, 100, 101>>, sz |-> 0, tp |-> <<>>],
  (* 101 *) [k |-> "list", ty |-> "Vec<Node>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 100, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 78, 111, 100, 101, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 100]>>],
  (* 102 *) [k |-> "struct", ty |-> "InvJ", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "InvJ", f |-> <<[n |-> "lo", sh |-> 16, key |-> <<108, 111>>, dn |-> <<108, 111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "hi", sh |-> 16, key |-> <<104, 105>>, dn |-> <<104, 105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<"ordered">>, doc |-> <<>>, tn |-> <<73, 110, 118, 74>>, sz |-> 0, tp |-> <<>>],
  (* 103 *) [k |-> "enum", ty |-> "Shp", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "Shp", vs |-> <<[n |-> "Nothing", key |-> <<78, 111, 116, 104, 105, 110, 103>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<>>, f |-> <<>>], [n |-> "One", key |-> <<79, 110, 101>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 10, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Pair", key |-> <<80, 97, 105, 114>>, kind |-> "tuple", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 6, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Rec", key |-> <<82, 101, 99>>, kind |-> "struct", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 4, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "s", sh |-> 104, key |-> <<115>>, dn |-> <<115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Deep", key |-> <<68, 101, 101, 112>>, kind |-> "tuple", disc |-> <<4>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 74, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Only", key |-> <<79, 110, 108, 121>>, kind |-> "struct", disc |-> <<5>>, doc |-> <<>>, f |-> <<[n |-> "z", sh |-> 14, key |-> <<122>>, dn |-> <<122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<83, 104, 112>>, sz |-> 0, tp |-> <<>>],
  (* 104 *) [k |-> "option", ty |-> "Option<bool>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 2, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 98, 111, 111, 108, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 2]>>],
  (* 105 *) [k |-> "struct", ty |-> "JOut", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "JOut", f |-> <<[n |-> "e", sh |-> 103, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "es", sh |-> 106, key |-> <<101, 115>>, dn |-> <<101, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "m", sh |-> 107, key |-> <<109>>, dn |-> <<109>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "k", sh |-> 108, key |-> <<107>>, dn |-> <<107>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 109, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<74, 79, 117, 116>>, sz |-> 0, tp |-> <<>>],
  (* 106 *) [k |-> "list", ty |-> "Vec<Shp>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 103, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 83, 104, 112, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 103]>>],
  (* 107 *) [k |-> "map", ty |-> "HashMap<String,u8>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 6, vt |-> 8, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 117, 56, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 8], [n |-> "S", sh |-> 0]>>],
  (* 108 *) [k |-> "map", ty |-> "BTreeMap<i32,Shp>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, kt |-> 16, vt |-> 103, mk |-> "BTreeMap", doc |-> <<>>, tn |-> <<66, 84, 114, 101, 101, 77, 97, 112, 60, 105, 51, 50, 44, 32, 83, 104, 112, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 16], [n |-> "V", sh |-> 103]>>],
  (* 109 *) [k |-> "option", ty |-> "Option<Shp>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 103, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 83, 104, 112, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 103]>>],
  (* 110 *) [k |-> "struct", ty |-> "MpS", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "MpS", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 9, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 10, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 11, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 14, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 15, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "h", sh |-> 16, key |-> <<104>>, dn |-> <<104>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 17, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "s", sh |-> 6, key |-> <<115>>, dn |-> <<115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "t", sh |-> 2, key |-> <<116>>, dn |-> <<116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 112, 83>>, sz |-> 0, tp |-> <<>>],
  (* 111 *) [k |-> "struct", ty |-> "MpN", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "MpN", f |-> <<[n |-> "k", sh |-> 112, key |-> <<107>>, dn |-> <<107>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 6, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "z", sh |-> 112, key |-> <<122>>, dn |-> <<122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 112, 78>>, sz |-> 0, tp |-> <<>>],
  (* 112 *) [k |-> "struct", ty |-> "MpI", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "MpI", f |-> <<[n |-> "id", sh |-> 10, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "x", sh |-> 17, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 112, 73>>, sz |-> 0, tp |-> <<>>],
  (* 113 *) [k |-> "struct", ty |-> "MpL", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "MpL", f |-> <<[n |-> "a", sh |-> 6, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 8, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 2, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 112, 76>>, sz |-> 0, tp |-> <<>>],
  (* 114 *) [k |-> "struct", ty |-> "Mp15", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Mp15", f |-> <<[n |-> "g0", sh |-> 8, key |-> <<103, 48>>, dn |-> <<103, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g1", sh |-> 8, key |-> <<103, 49>>, dn |-> <<103, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g2", sh |-> 8, key |-> <<103, 50>>, dn |-> <<103, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g3", sh |-> 8, key |-> <<103, 51>>, dn |-> <<103, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g4", sh |-> 8, key |-> <<103, 52>>, dn |-> <<103, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g5", sh |-> 8, key |-> <<103, 53>>, dn |-> <<103, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g6", sh |-> 8, key |-> <<103, 54>>, dn |-> <<103, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g7", sh |-> 8, key |-> <<103, 55>>, dn |-> <<103, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g8", sh |-> 8, key |-> <<103, 56>>, dn |-> <<103, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g9", sh |-> 8, key |-> <<103, 57>>, dn |-> <<103, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g10", sh |-> 8, key |-> <<103, 49, 48>>, dn |-> <<103, 49, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g11", sh |-> 8, key |-> <<103, 49, 49>>, dn |-> <<103, 49, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g12", sh |-> 8, key |-> <<103, 49, 50>>, dn |-> <<103, 49, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g13", sh |-> 8, key |-> <<103, 49, 51>>, dn |-> <<103, 49, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g14", sh |-> 8, key |-> <<103, 49, 52>>, dn |-> <<103, 49, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 112, 49, 53>>, sz |-> 0, tp |-> <<>>],
  (* 115 *) [k |-> "struct", ty |-> "Mp16", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Mp16", f |-> <<[n |-> "g0", sh |-> 15, key |-> <<103, 48>>, dn |-> <<103, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g1", sh |-> 15, key |-> <<103, 49>>, dn |-> <<103, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g2", sh |-> 15, key |-> <<103, 50>>, dn |-> <<103, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g3", sh |-> 15, key |-> <<103, 51>>, dn |-> <<103, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g4", sh |-> 15, key |-> <<103, 52>>, dn |-> <<103, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g5", sh |-> 15, key |-> <<103, 53>>, dn |-> <<103, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g6", sh |-> 15, key |-> <<103, 54>>, dn |-> <<103, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g7", sh |-> 15, key |-> <<103, 55>>, dn |-> <<103, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g8", sh |-> 15, key |-> <<103, 56>>, dn |-> <<103, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g9", sh |-> 15, key |-> <<103, 57>>, dn |-> <<103, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g10", sh |-> 15, key |-> <<103, 49, 48>>, dn |-> <<103, 49, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g11", sh |-> 15, key |-> <<103, 49, 49>>, dn |-> <<103, 49, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g12", sh |-> 15, key |-> <<103, 49, 50>>, dn |-> <<103, 49, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g13", sh |-> 15, key |-> <<103, 49, 51>>, dn |-> <<103, 49, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g14", sh |-> 15, key |-> <<103, 49, 52>>, dn |-> <<103, 49, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g15", sh |-> 15, key |-> <<103, 49, 53>>, dn |-> <<103, 49, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 112, 49, 54>>, sz |-> 0, tp |-> <<>>],
  (* 116 *) [k |-> "struct", ty |-> "MpX", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "MpX", f |-> <<[n |-> "n123456789012345678901234567890", sh |-> 11, key |-> <<110, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48>>, dn |-> <<110, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "m1234567890123456789012345678901", sh |-> 17, key |-> <<109, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49>>, dn |-> <<109, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "k", sh |-> 117, key |-> <<107>>, dn |-> <<107>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 118, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "é", sh |-> 2, key |-> <<233>>, dn |-> <<233>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 112, 88>>, sz |-> 0, tp |-> <<>>],
  (* 117 *) [k |-> "struct", ty |-> "Mp0", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Mp0", f |-> <<>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 112, 48>>, sz |-> 0, tp |-> <<>>],
  (* 118 *) [k |-> "struct", ty |-> "MpT", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "MpT", f |-> <<[n |-> "0", sh |-> 10, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 6, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 14, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 112, 84>>, sz |-> 0, tp |-> <<>>],
  (* 119 *) [k |-> "struct", ty |-> "Cfg", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Cfg", f |-> <<[n |-> "title", sh |-> 6, key |-> <<116, 105, 116, 108, 101>>, dn |-> <<116, 105, 116, 108, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "port", sh |-> 9, key |-> <<112, 111, 114, 116>>, dn |-> <<112, 111, 114, 116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ratio", sh |-> 4, key |-> <<114, 97, 116, 105, 111>>, dn |-> <<114, 97, 116, 105, 111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "on", sh |-> 2, key |-> <<111, 110>>, dn |-> <<111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "own", sh |-> 120, key |-> <<111, 119, 110>>, dn |-> <<111, 119, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "opt", sh |-> 80, key |-> <<111, 112, 116>>, dn |-> <<111, 112, 116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "names", sh |-> 76, key |-> <<110, 97, 109, 101, 115>>, dn |-> <<110, 97, 109, 101, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "mode", sh |-> 121, key |-> <<109, 111, 100, 101>>, dn |-> <<109, 111, 100, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<67, 102, 103>>, sz |-> 0, tp |-> <<>>],
  (* 120 *) [k |-> "struct", ty |-> "CfgO", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "CfgO", f |-> <<[n |-> "name", sh |-> 6, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 17, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<67, 102, 103, 79>>, sz |-> 0, tp |-> <<>>],
  (* 121 *) [k |-> "enum", ty |-> "Mode", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "Mode", vs |-> <<[n |-> "Off", key |-> <<79, 102, 102>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<>>, f |-> <<>>], [n |-> "Level", key |-> <<76, 101, 118, 101, 108>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Both", key |-> <<66, 111, 116, 104>>, kind |-> "tuple", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 6, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Full", key |-> <<70, 117, 108, 108>>, kind |-> "struct", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "a", sh |-> 16, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 75, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<77, 111, 100, 101>>, sz |-> 0, tp |-> <<>>],
  (* 122 *) [k |-> "struct", ty |-> "Wrap", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "Wrap", f |-> <<[n |-> "0", sh |-> 9, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<87, 114, 97, 112>>, sz |-> 0, tp |-> <<>>],
  (* 123 *) [k |-> "struct", ty |-> "TomlM", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "TomlM", f |-> <<[n |-> "m", sh |-> 107, key |-> <<109>>, dn |-> <<109>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 124, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "l", sh |-> 89, key |-> <<108>>, dn |-> <<108>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ms", sh |-> 125, key |-> <<109, 115>>, dn |-> <<109, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 122, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<84, 111, 109, 108, 77>>, sz |-> 0, tp |-> <<>>],
  (* 124 *) [k |-> "option", ty |-> "Option<CfgO>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 120, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 67, 102, 103, 79, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 120]>>],
  (* 125 *) [k |-> "list", ty |-> "Vec<Mode>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 121, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 77, 111, 100, 101, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 121]>>],
  (* 126 *) [k |-> "struct", ty |-> "TomlE", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "TomlE", f |-> <<[n |-> "a", sh |-> 121, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 127, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 106, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 128, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 88, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 129, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "h", sh |-> 130, key |-> <<104>>, dn |-> <<104>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<84, 111, 109, 108, 69>>, sz |-> 0, tp |-> <<>>],
  (* 127 *) [k |-> "option", ty |-> "Option<Mode>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 121, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 77, 111, 100, 101, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 121]>>],
  (* 128 *) [k |-> "map", ty |-> "HashMap<String,Mode>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, kt |-> 6, vt |-> 121, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 77, 111, 100, 101, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 121], [n |-> "S", sh |-> 0]>>],
  (* 129 *) [k |-> "map", ty |-> "HashMap<String,CfgO>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, kt |-> 6, vt |-> 120, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 67, 102, 103, 79, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 120], [n |-> "S", sh |-> 0]>>],
  (* 130 *) [k |-> "enum", ty |-> "Tv", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "C", name |-> "Tv", vs |-> <<[n |-> "P", key |-> <<80>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 3, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "O", key |-> <<79>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 80, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 75, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "S", key |-> <<83>>, kind |-> "struct", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "a", sh |-> 80, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 2, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 121, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "N", key |-> <<78>>, kind |-> "tuple", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 120, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "W", key |-> <<87>>, kind |-> "struct", disc |-> <<4>>, doc |-> <<>>, f |-> <<[n |-> "m", sh |-> 131, key |-> <<109>>, dn |-> <<109>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "T", key |-> <<84>>, kind |-> "tuple", disc |-> <<5>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 122, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "L", key |-> <<76>>, kind |-> "tuple", disc |-> <<6>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 132, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 8, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<84, 118>>, sz |-> 0, tp |-> <<>>],
  (* 131 *) [k |-> "map", ty |-> "HashMap<String,i8>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 6, vt |-> 14, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 105, 56, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 14], [n |-> "S", sh |-> 0]>>],
  (* 132 *) [k |-> "list", ty |-> "Vec<i16>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 15, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 105, 49, 54, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 15]>>],
  (* 133 *) [k |-> "struct", ty |-> "TomlO", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "TomlO", f |-> <<[n |-> "a", sh |-> 124, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 134, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 135, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 104, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 137, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 138, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 75, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<84, 111, 109, 108, 79>>, sz |-> 0, tp |-> <<>>],
  (* 134 *) [k |-> "option", ty |-> "Option<Wrap>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 122, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 87, 114, 97, 112, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 122]>>],
  (* 135 *) [k |-> "option", ty |-> "Option<Vec<Option<u8>>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 136, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 86, 101, 99, 60, 79, 112, 116, 105, 111, 110, 60, 117, 56, 62, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 136]>>],
  (* 136 *) [k |-> "list", ty |-> "Vec<Option<u8>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 80, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 112, 116, 105, 111, 110, 60, 117, 56, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 80]>>],
  (* 137 *) [k |-> "option", ty |-> "Option<f32>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd", "Copy"}, t |-> 3, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 102, 51, 50, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 3]>>],
  (* 138 *) [k |-> "option", ty |-> "Option<Tv>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 130, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 84, 118, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 130]>>],
  (* 139 *) [k |-> "struct", ty |-> "Ym", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Ym", f |-> <<[n |-> "host", sh |-> 6, key |-> <<104, 111, 115, 116>>, dn |-> <<104, 111, 115, 116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "port", sh |-> 11, key |-> <<112, 111, 114, 116>>, dn |-> <<112, 111, 114, 116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "in_", sh |-> 140, key |-> <<105, 110, 95>>, dn |-> <<105, 110, 95>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<89, 109>>, sz |-> 0, tp |-> <<>>],
  (* 140 *) [k |-> "struct", ty |-> "YmI", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "YmI", f |-> <<[n |-> "a", sh |-> 11, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 6, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<89, 109, 73>>, sz |-> 0, tp |-> <<>>],
  (* 141 *) [k |-> "struct", ty |-> "Form", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Form", f |-> <<[n |-> "name", sh |-> 6, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 11, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "user", sh |-> 142, key |-> <<117, 115, 101, 114>>, dn |-> <<117, 115, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<70, 111, 114, 109>>, sz |-> 0, tp |-> <<>>],
  (* 142 *) [k |-> "struct", ty |-> "FormU", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "FormU", f |-> <<[n |-> "age", sh |-> 11, key |-> <<97, 103, 101>>, dn |-> <<97, 103, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "city", sh |-> 6, key |-> <<99, 105, 116, 121>>, dn |-> <<99, 105, 116, 121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "more", sh |-> 143, key |-> <<109, 111, 114, 101>>, dn |-> <<109, 111, 114, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<70, 111, 114, 109, 85>>, sz |-> 0, tp |-> <<>>],
  (* 143 *) [k |-> "struct", ty |-> "FormV", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "FormV", f |-> <<[n |-> "z", sh |-> 6, key |-> <<122>>, dn |-> <<122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<70, 111, 114, 109, 86>>, sz |-> 0, tp |-> <<>>],
  (* 144 *) [k |-> "struct", ty |-> "Args", traits |-> {"Debug"}, sk |-> "struct", name |-> "Args", f |-> <<[n |-> "path", sh |-> 6, key |-> <<112, 97, 116, 104>>, dn |-> <<112, 97, 116, 104>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "count", sh |-> 9, key |-> <<99, 111, 117, 110, 116>>, dn |-> <<99, 111, 117, 110, 116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "verbose", sh |-> 2, key |-> <<118, 101, 114, 98, 111, 115, 101>>, dn |-> <<118, 101, 114, 98, 111, 115, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>, <<115, 104, 111, 114, 116, 61, 34, 118, 34>>>>, pos |-> FALSE, long |-> TRUE, short |-> "v"], [n |-> "jobs", sh |-> 16, key |-> <<106, 111, 98, 115>>, dn |-> <<106, 111, 98, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>, <<115, 104, 111, 114, 116, 61, 34, 106, 34>>>>, pos |-> FALSE, long |-> TRUE, short |-> "j"], [n |-> "out", sh |-> 6, key |-> <<111, 117, 116>>, dn |-> <<111, 117, 116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 114, 103, 115>>, sz |-> 0, tp |-> <<>>],
  (* 145 *) [k |-> "struct", ty |-> "Args1", traits |-> {"Debug"}, sk |-> "struct", name |-> "Args1", f |-> <<[n |-> "verbose", sh |-> 2, key |-> <<118, 101, 114, 98, 111, 115, 101>>, dn |-> <<118, 101, 114, 98, 111, 115, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "x", sh |-> 8, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "file", sh |-> 6, key |-> <<102, 105, 108, 101>>, dn |-> <<102, 105, 108, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 114, 103, 115, 49>>, sz |-> 0, tp |-> <<>>],
  (* 146 *) [k |-> "struct", ty |-> "Args2", traits |-> {"Debug"}, sk |-> "struct", name |-> "Args2", f |-> <<[n |-> "a", sh |-> 5, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 4, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 11, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 114, 103, 115, 50>>, sz |-> 0, tp |-> <<>>],
  (* 147 *) [k |-> "struct", ty |-> "Args3", traits |-> {"Debug"}, sk |-> "struct", name |-> "Args3", f |-> <<[n |-> "on", sh |-> 2, key |-> <<111, 110>>, dn |-> <<111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 17, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>, <<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> TRUE, short |-> ""], [n |-> "off", sh |-> 2, key |-> <<111, 102, 102>>, dn |-> <<111, 102, 102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "m", sh |-> 20, key |-> <<109>>, dn |-> <<109>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "last", sh |-> 6, key |-> <<108, 97, 115, 116>>, dn |-> <<108, 97, 115, 116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 114, 103, 115, 51>>, sz |-> 0, tp |-> <<>>],
  (* 148 *) [k |-> "struct", ty |-> "Args4", traits |-> {"Debug"}, sk |-> "struct", name |-> "Args4", f |-> <<[n |-> "s", sh |-> 6, key |-> <<115>>, dn |-> <<115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "r", sh |-> 3, key |-> <<114>>, dn |-> <<114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "k", sh |-> 13, key |-> <<107>>, dn |-> <<107>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>, <<110, 97, 109, 101, 100>>>>, pos |-> TRUE, long |-> TRUE, short |-> ""], [n |-> "z", sh |-> 15, key |-> <<122>>, dn |-> <<122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 114, 103, 115, 52>>, sz |-> 0, tp |-> <<>>],
  (* 149 *) [k |-> "struct", ty |-> "Args5", traits |-> {"Debug"}, sk |-> "struct", name |-> "Args5", f |-> <<[n |-> "a", sh |-> 2, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "b", sh |-> 2, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 114, 103, 115, 53>>, sz |-> 0, tp |-> <<>>],
  (* 150 *) [k |-> "struct", ty |-> "Args6", traits |-> {"Debug"}, sk |-> "struct", name |-> "Args6", f |-> <<[n |-> "o", sh |-> 80, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "l", sh |-> 76, key |-> <<108>>, dn |-> <<108>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "x", sh |-> 2, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 114, 103, 115, 54>>, sz |-> 0, tp |-> <<>>],
  (* 151 *) [k |-> "struct", ty |-> "Sec", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Sec", f |-> <<[n |-> "id", sh |-> 10, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "key", sh |-> 6, key |-> <<107, 101, 121>>, dn |-> <<107, 101, 121>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "opt", sh |-> 75, key |-> <<111, 112, 116>>, dn |-> <<111, 112, 116>>, def |-> "none", sens |-> TRUE, doc |-> <<<<32, 104, 105, 100, 100, 101, 110>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tags", sh |-> 63, key |-> <<116, 97, 103, 115>>, dn |-> <<116, 97, 103, 115>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 6, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 115, 104, 111, 119, 110>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<83, 101, 99>>, sz |-> 0, tp |-> <<>>],
  (* 152 *) [k |-> "struct", ty |-> "SecT", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "SecT", f |-> <<[n |-> "0", sh |-> 6, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 9, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 153, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "3", sh |-> 154, key |-> <<51>>, dn |-> <<51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<83, 101, 99, 84>>, sz |-> 0, tp |-> <<>>],
  (* 153 *) [k |-> "list", ty |-> "Vec<Sec>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 151, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 83, 101, 99, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 151]>>],
  (* 154 *) [k |-> "option", ty |-> "Option<Sec>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 151, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 83, 101, 99, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 151]>>],
  (* 155 *) [k |-> "enum", ty |-> "SecE", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "SecE", vs |-> <<[n |-> "U", key |-> <<85>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<>>, f |-> <<>>], [n |-> "T", key |-> <<84>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 6, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 8, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_2", sh |-> 151, key |-> <<95, 50>>, dn |-> <<95, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "S", key |-> <<83>>, kind |-> "struct", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "pw", sh |-> 6, key |-> <<112, 119>>, dn |-> <<112, 119>>, def |-> "none", sens |-> TRUE, doc |-> <<<<32, 116, 104, 101, 32, 34, 115, 101, 99, 114, 101, 116, 34>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "x", sh |-> 8, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 115, 101, 101, 110>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 151, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 156, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "E", key |-> <<69>>, kind |-> "tuple", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 156, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 137, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 65, 110, 32, 101, 110, 117, 109>>, <<32, 32, 32, 119, 105, 116, 104, 32, 97, 32, 92, 32, 105, 110, 32, 105, 116>>>>, tn |-> <<83, 101, 99, 69>>, sz |-> 0, tp |-> <<>>],
  (* 156 *) [k |-> "list", ty |-> "Vec<SecE>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 155, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 83, 101, 99, 69, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 155]>>],
  (* 157 *) [k |-> "struct", ty |-> "SecN", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "SecN", f |-> <<[n |-> "s", sh |-> 151, key |-> <<115>>, dn |-> <<115>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "l", sh |-> 153, key |-> <<108>>, dn |-> <<108>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 154, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "m", sh |-> 158, key |-> <<109>>, dn |-> <<109>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "a", sh |-> 159, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 155, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "t", sh |-> 160, key |-> <<116>>, dn |-> <<116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "r", sh |-> 161, key |-> <<114>>, dn |-> <<114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "u", sh |-> 152, key |-> <<117>>, dn |-> <<117>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "z", sh |-> 162, key |-> <<122>>, dn |-> <<122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<83, 101, 99, 78>>, sz |-> 0, tp |-> <<>>],
  (* 158 *) [k |-> "map", ty |-> "HashMap<String,Sec>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, kt |-> 6, vt |-> 151, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 83, 101, 99, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 151], [n |-> "S", sh |-> 0]>>],
  (* 159 *) [k |-> "array", ty |-> "[Sec;2]", traits |-> {"Clone", "Debug", "PartialEq"}, t |-> 151, n |-> 2, doc |-> <<>>, tn |-> <<91, 83, 101, 99, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 151]>>],
  (* 160 *) [k |-> "struct", ty |-> "(Sec,u8)", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuple", name |-> "(Sec,u8)", f |-> <<[n |-> "0", sh |-> 151, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 83, 101, 99, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 161 *) [k |-> "arc", ty |-> "Arc<SecT>", traits |-> {"Clone"}, t |-> 152, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 152]>>],
  (* 162 *) [k |-> "option", ty |-> "Option<Vec<SecE>>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 156, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 86, 101, 99, 60, 83, 101, 99, 69, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 156]>>],
  (* 163 *) [k |-> "struct", ty |-> "SecAll", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "SecAll", f |-> <<[n |-> "a", sh |-> 164, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 155, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 2, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<83, 101, 99, 65, 108, 108>>, sz |-> 0, tp |-> <<>>],
  (* 164 *) [k |-> "list", ty |-> "Vec<Un>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 33, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 85, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 33]>>],
  (* 165 *) [k |-> "struct", ty |-> "Doc", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Doc", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 70, 105, 114, 115, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 166, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 111, 102, 32, 98>>, <<32, 116, 119, 111, 32, 108, 105, 110, 101, 115>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 167, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<<<110, 111, 32, 115, 112, 97, 99, 101>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 168, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 4, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<<<>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 171, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 65, 32, 100, 111, 99, 117, 109, 101, 110, 116, 101, 100, 32, 116, 121, 112, 101>>, <<>>, <<32, 111, 118, 101, 114, 32, 116, 104, 114, 101, 101, 32, 108, 105, 110, 101, 115>>>>, tn |-> <<68, 111, 99>>, sz |-> 0, tp |-> <<>>],
  (* 166 *) [k |-> "struct", ty |-> "DocI", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "DocI", f |-> <<[n |-> "n", sh |-> 16, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 80, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 109, 97, 121, 98, 101>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 105, 110, 110, 101, 114>>>>, tn |-> <<68, 111, 99, 73>>, sz |-> 0, tp |-> <<>>],
  (* 167 *) [k |-> "list", ty |-> "Vec<DocI>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 166, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 68, 111, 99, 73, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 166]>>],
  (* 168 *) [k |-> "option", ty |-> "Option<DocE>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 169, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 68, 111, 99, 69, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 169]>>],
  (* 169 *) [k |-> "enum", ty |-> "DocE", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "DocE", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<<<32, 110, 111, 116, 104, 105, 110, 103>>>>, f |-> <<>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<<<32, 98, 32, 111, 110, 101>>, <<32, 98, 32, 116, 119, 111>>>>, f |-> <<[n |-> "_0", sh |-> 166, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 8, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "struct", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 17, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 116, 104, 101, 32, 120>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 170, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 109, 111, 114, 101>>, <<32, 97, 110, 100, 32, 109, 111, 114, 101>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "z", sh |-> 6, key |-> <<122>>, dn |-> <<122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "D", key |-> <<68>>, kind |-> "tuple", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 33, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 68, 111, 99, 117, 109, 101, 110, 116, 101, 100>>>>, tn |-> <<68, 111, 99, 69>>, sz |-> 0, tp |-> <<>>],
  (* 170 *) [k |-> "list", ty |-> "Vec<DocE>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 169, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 68, 111, 99, 69, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 169]>>],
  (* 171 *) [k |-> "struct", ty |-> "DocT", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "DocT", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 166, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 116, 117, 112, 108, 101, 32, 115, 116, 114, 117, 99, 116>>>>, tn |-> <<68, 111, 99, 84>>, sz |-> 0, tp |-> <<>>],
  (* 172 *) [k |-> "struct", ty |-> "Bytes", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Bytes", f |-> <<[n |-> "v", sh |-> 63, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 173, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "x", sh |-> 174, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 175, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "z", sh |-> 176, key |-> <<122>>, dn |-> <<122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<66, 121, 116, 101, 115>>, sz |-> 0, tp |-> <<>>],
  (* 173 *) [k |-> "option", ty |-> "Option<Vec<u8>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 63, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 86, 101, 99, 60, 117, 56, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 63]>>],
  (* 174 *) [k |-> "list", ty |-> "Vec<Vec<u8>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 63, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 86, 101, 99, 60, 117, 56, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 63]>>],
  (* 175 *) [k |-> "array", ty |-> "[u8;3]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 8, n |-> 3, doc |-> <<>>, tn |-> <<91, 117, 56, 59, 32, 51, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 176 *) [k |-> "struct", ty |-> "(u8,Vec<u8>)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "tuple", name |-> "(u8,Vec<u8>)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 63, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 86, 101, 99, 60, 117, 56, 62, 41>>, sz |-> 0, tp |-> <<>>],
  (* 177 *) [k |-> "struct", ty |-> "Zst", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Zst", f |-> <<[n |-> "a", sh |-> 33, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 164, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 178, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 179, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 1, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 180, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 117, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<90, 115, 116>>, sz |-> 0, tp |-> <<>>],
  (* 178 *) [k |-> "option", ty |-> "Option<Un>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 33, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 85, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 33]>>],
  (* 179 *) [k |-> "struct", ty |-> "(Un,())", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuple", name |-> "(Un,())", f |-> <<[n |-> "0", sh |-> 33, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 1, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 85, 110, 44, 32, 40, 41, 41>>, sz |-> 0, tp |-> <<>>],
  (* 180 *) [k |-> "option", ty |-> "Option<Option<()>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 181, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 79, 112, 116, 105, 111, 110, 60, 40, 41, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 181]>>],
  (* 181 *) [k |-> "option", ty |-> "Option<()>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 1, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 40, 41, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 1]>>],
  (* 182 *) [k |-> "struct", ty |-> "Net", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "struct", name |-> "Net", f |-> <<[n |-> "a", sh |-> 183, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 184, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 185, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 186, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "p", sh |-> 187, key |-> <<112>>, dn |-> <<112>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 188, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<78, 101, 116>>, sz |-> 0, tp |-> <<>>],
  (* 183 *) [k |-> "scalar", ty |-> "Ipv4Addr", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "Ipv4Addr", doc |-> <<>>, tn |-> <<73, 112, 118, 52, 65, 100, 100, 114>>, sz |-> 0, tp |-> <<>>],
  (* 184 *) [k |-> "scalar", ty |-> "Ipv6Addr", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "Ipv6Addr", doc |-> <<>>, tn |-> <<73, 112, 118, 54, 65, 100, 100, 114>>, sz |-> 0, tp |-> <<>>],
  (* 185 *) [k |-> "scalar", ty |-> "IpAddr", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "IpAddr", doc |-> <<>>, tn |-> <<73, 112, 65, 100, 100, 114>>, sz |-> 0, tp |-> <<>>],
  (* 186 *) [k |-> "scalar", ty |-> "SocketAddr", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "SocketAddr", doc |-> <<>>, tn |-> <<83, 111, 99, 107, 101, 116, 65, 100, 100, 114>>, sz |-> 0, tp |-> <<>>],
  (* 187 *) [k |-> "scalar", ty |-> "PathBuf", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "FromStr"}, s |-> "PathBuf", doc |-> <<>>, tn |-> <<80, 97, 116, 104, 66, 117, 102>>, sz |-> 0, tp |-> <<>>],
  (* 188 *) [k |-> "option", ty |-> "Option<IpAddr>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 185, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 73, 112, 65, 100, 100, 114, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 185]>>],
  (* 189 *) [k |-> "struct", ty |-> "Strs", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "struct", name |-> "Strs", f |-> <<[n |-> "a", sh |-> 190, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 191, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 192, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 193, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "p", sh |-> 187, key |-> <<112>>, dn |-> <<112>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<83, 116, 114, 115>>, sz |-> 0, tp |-> <<>>],
  (* 190 *) [k |-> "scalar", ty |-> "Str", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "Copy"}, s |-> "Str", doc |-> <<>>, tn |-> <<38, 115, 116, 114>>, sz |-> 16, tp |-> <<>>],
  (* 191 *) [k |-> "scalar", ty |-> "CowStr", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display"}, s |-> "CowStr", doc |-> <<>>, tn |-> <<67, 111, 119, 60, 39, 95, 44, 32, 115, 116, 114, 62>>, sz |-> 0, tp |-> <<>>],
  (* 192 *) [k |-> "option", ty |-> "Option<Str>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 190, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 38, 115, 116, 114, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 190]>>],
  (* 193 *) [k |-> "list", ty |-> "Vec<CowStr>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 191, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 67, 111, 119, 60, 39, 95, 44, 32, 115, 116, 114, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 191]>>],
  (* 194 *) [k |-> "struct", ty |-> "Big", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "struct", name |-> "Big", f |-> <<[n |-> "a", sh |-> 12, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 18, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 195, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 196, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 13, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 19, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<66, 105, 103>>, sz |-> 0, tp |-> <<>>],
  (* 195 *) [k |-> "scalar", ty |-> "NonZeroU128", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroU128", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 117, 49, 50, 56, 62>>, sz |-> 16, tp |-> <<>>],
  (* 196 *) [k |-> "scalar", ty |-> "NonZeroI128", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display", "FromStr", "Copy"}, s |-> "NonZeroI128", doc |-> <<>>, tn |-> <<99, 111, 114, 101, 58, 58, 110, 117, 109, 58, 58, 78, 111, 110, 90, 101, 114, 111, 60, 105, 49, 50, 56, 62>>, sz |-> 16, tp |-> <<>>],
  (* 197 *) [k |-> "struct", ty |-> "Every", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "struct", name |-> "Every", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 16, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 6, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 5, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 2, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 75, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 198, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "h", sh |-> 199, key |-> <<104>>, dn |-> <<104>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 200, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "j", sh |-> 201, key |-> <<106>>, dn |-> <<106>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "k", sh |-> 1, key |-> <<107>>, dn |-> <<107>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<69, 118, 101, 114, 121>>, sz |-> 0, tp |-> <<>>],
  (* 198 *) [k |-> "struct", ty |-> "(u8,i16)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,i16)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 15, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 105, 49, 54, 41>>, sz |-> 0, tp |-> <<>>],
  (* 199 *) [k |-> "map", ty |-> "BTreeMap<u8,String>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, kt |-> 8, vt |-> 6, mk |-> "BTreeMap", doc |-> <<>>, tn |-> <<66, 84, 114, 101, 101, 77, 97, 112, 60, 117, 56, 44, 32, 83, 116, 114, 105, 110, 103, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 6]>>],
  (* 200 *) [k |-> "array", ty |-> "[i8;2]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 14, n |-> 2, doc |-> <<>>, tn |-> <<91, 105, 56, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 14]>>],
  (* 201 *) [k |-> "list", ty |-> "Vec<u16>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 9, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 117, 49, 54, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 9]>>],
  (* 202 *) [k |-> "struct", ty |-> "EvFl", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd"}, sk |-> "struct", name |-> "EvFl", f |-> <<[n |-> "a", sh |-> 3, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 4, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 203, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 204, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 205, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 206, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<69, 118, 70, 108>>, sz |-> 0, tp |-> <<>>],
  (* 203 *) [k |-> "option", ty |-> "Option<f64>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd", "Copy"}, t |-> 4, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 102, 54, 52, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 4]>>],
  (* 204 *) [k |-> "struct", ty |-> "(f32,u8)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd", "Copy"}, sk |-> "tuple", name |-> "(f32,u8)", f |-> <<[n |-> "0", sh |-> 3, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 102, 51, 50, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 205 *) [k |-> "array", ty |-> "[f64;2]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd", "Copy"}, t |-> 4, n |-> 2, doc |-> <<>>, tn |-> <<91, 102, 54, 52, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 4]>>],
  (* 206 *) [k |-> "list", ty |-> "Vec<f32>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd"}, t |-> 3, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 102, 51, 50, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 3]>>],
  (* 207 *) [k |-> "enum", ty |-> "EvEn", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, repr |-> "u8", name |-> "EvEn", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<>>, f |-> <<>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 6, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "struct", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 17, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 208, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "D", key |-> <<68>>, kind |-> "tuple", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 197, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "E", key |-> <<69>>, kind |-> "unit", disc |-> <<2, 0, 0>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<69, 118, 69, 110>>, sz |-> 0, tp |-> <<>>],
  (* 208 *) [k |-> "option", ty |-> "Option<char>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 5, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 99, 104, 97, 114, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 5]>>],
  (* 209 *) [k |-> "enum", ty |-> "EvEf", traits |-> {"Clone", "Debug", "PartialEq", "PartialOrd"}, repr |-> "i32", name |-> "EvEf", vs |-> <<[n |-> "P", key |-> <<80>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 4, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Q", key |-> <<81>>, kind |-> "struct", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 3, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 2, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "N", key |-> <<78>>, kind |-> "unit", disc |-> <<2>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<69, 118, 69, 102>>, sz |-> 0, tp |-> <<>>],
  (* 210 *) [k |-> "struct", ty |-> "Disp", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Display"}, sk |-> "struct", name |-> "Disp", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 6, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 105, 115, 112>>, sz |-> 0, tp |-> <<>>],
  (* 211 *) [k |-> "struct", ty |-> "Cp", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "struct", name |-> "Cp", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 17, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 5, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 104, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<67, 112>>, sz |-> 0, tp |-> <<>>],
  (* 212 *) [k |-> "struct", ty |-> "CpT", traits |-> {"Clone", "Debug", "PartialEq", "PartialOrd", "Copy"}, sk |-> "tuplestruct", name |-> "CpT", f |-> <<[n |-> "0", sh |-> 9, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 3, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<67, 112, 84>>, sz |-> 0, tp |-> <<>>],
  (* 213 *) [k |-> "struct", ty |-> "CpU", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "unit", name |-> "CpU", f |-> <<>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<67, 112, 85>>, sz |-> 0, tp |-> <<>>],
  (* 214 *) [k |-> "struct", ty |-> "Own1", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "struct", name |-> "Own1", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 8, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 119, 110, 49>>, sz |-> 0, tp |-> <<>>],
  (* 215 *) [k |-> "struct", ty |-> "OneClone", traits |-> {"Clone"}, sk |-> "struct", name |-> "OneClone", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 7, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 110, 101, 67, 108, 111, 110, 101>>, sz |-> 0, tp |-> <<>>],
  (* 216 *) [k |-> "struct", ty |-> "OneDebug", traits |-> {"Debug"}, sk |-> "struct", name |-> "OneDebug", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 7, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 110, 101, 68, 101, 98, 117, 103>>, sz |-> 0, tp |-> <<>>],
  (* 217 *) [k |-> "struct", ty |-> "OneDefault", traits |-> {"Default"}, sk |-> "struct", name |-> "OneDefault", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 7, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 110, 101, 68, 101, 102, 97, 117, 108, 116>>, sz |-> 0, tp |-> <<>>],
  (* 218 *) [k |-> "struct", ty |-> "OnePartialEq", traits |-> {"PartialEq"}, sk |-> "struct", name |-> "OnePartialEq", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 7, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 110, 101, 80, 97, 114, 116, 105, 97, 108, 69, 113>>, sz |-> 0, tp |-> <<>>],
  (* 219 *) [k |-> "struct", ty |-> "OneEq", traits |-> {"PartialEq", "Eq"}, sk |-> "struct", name |-> "OneEq", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 110, 101, 69, 113>>, sz |-> 0, tp |-> <<>>],
  (* 220 *) [k |-> "struct", ty |-> "OnePo", traits |-> {"PartialEq", "PartialOrd"}, sk |-> "struct", name |-> "OnePo", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 3, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 110, 101, 80, 111>>, sz |-> 0, tp |-> <<>>],
  (* 221 *) [k |-> "struct", ty |-> "OneHash", traits |-> {"Hash"}, sk |-> "struct", name |-> "OneHash", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 6, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 110, 101, 72, 97, 115, 104>>, sz |-> 0, tp |-> <<>>],
  (* 222 *) [k |-> "struct", ty |-> "HasOne", traits |-> {}, sk |-> "struct", name |-> "HasOne", f |-> <<[n |-> "a", sh |-> 215, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 223, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 224, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 225, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 226, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 227, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 228, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<72, 97, 115, 79, 110, 101>>, sz |-> 0, tp |-> <<>>],
  (* 223 *) [k |-> "list", ty |-> "Vec<OneDebug>", traits |-> {"Debug", "Default"}, t |-> 216, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 110, 101, 68, 101, 98, 117, 103, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 216]>>],
  (* 224 *) [k |-> "option", ty |-> "Option<OneDefault>", traits |-> {"Default"}, t |-> 217, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 79, 110, 101, 68, 101, 102, 97, 117, 108, 116, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 217]>>],
  (* 225 *) [k |-> "struct", ty |-> "(OnePartialEq,OneEq)", traits |-> {"PartialEq"}, sk |-> "tuple", name |-> "(OnePartialEq,OneEq)", f |-> <<[n |-> "0", sh |-> 218, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 219, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 79, 110, 101, 80, 97, 114, 116, 105, 97, 108, 69, 113, 44, 32, 79, 110, 101, 69, 113, 41>>, sz |-> 0, tp |-> <<>>],
  (* 226 *) [k |-> "array", ty |-> "[OneHash;2]", traits |-> {"Hash"}, t |-> 221, n |-> 2, doc |-> <<>>, tn |-> <<91, 79, 110, 101, 72, 97, 115, 104, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 221]>>],
  (* 227 *) [k |-> "map", ty |-> "HashMap<u8,OneEq>", traits |-> {"Default", "PartialEq", "Eq"}, kt |-> 8, vt |-> 219, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 79, 110, 101, 69, 113, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 219], [n |-> "S", sh |-> 0]>>],
  (* 228 *) [k |-> "list", ty |-> "Vec<OnePo>", traits |-> {"Default", "PartialEq", "PartialOrd"}, t |-> 220, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 110, 101, 80, 111, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 220]>>],
  (* 229 *) [k |-> "struct", ty |-> "Raw", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Raw", f |-> <<[n |-> "type", sh |-> 8, key |-> <<116, 121, 112, 101>>, dn |-> <<116, 121, 112, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "fn", sh |-> 6, key |-> <<102, 110>>, dn |-> <<102, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "plain", sh |-> 2, key |-> <<112, 108, 97, 105, 110>>, dn |-> <<112, 108, 97, 105, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "é", sh |-> 9, key |-> <<233>>, dn |-> <<233>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_u", sh |-> 14, key |-> <<95, 117>>, dn |-> <<95, 117>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "__", sh |-> 8, key |-> <<95, 95>>, dn |-> <<95, 95>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 97, 119>>, sz |-> 0, tp |-> <<>>],
  (* 230 *) [k |-> "enum", ty |-> "RawE", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "RawE", vs |-> <<[n |-> "Yield", key |-> <<89, 105, 101, 108, 100>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Plain", key |-> <<80, 108, 97, 105, 110>>, kind |-> "struct", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "in", sh |-> 8, key |-> <<105, 110>>, dn |-> <<105, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "match", sh |-> 80, key |-> <<109, 97, 116, 99, 104>>, dn |-> <<109, 97, 116, 99, 104>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "É", key |-> <<201>>, kind |-> "unit", disc |-> <<2>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 97, 119, 69>>, sz |-> 0, tp |-> <<>>],
  (* 231 *) [k |-> "struct", ty |-> "Rn", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rn", f |-> <<[n |-> "a", sh |-> 8, key |-> <<>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 8, key |-> <<119, 105, 116, 104, 32, 34, 113, 117, 111, 116, 101, 115, 34, 32, 97, 110, 100, 32, 92, 32, 97, 110, 100, 32, 123, 98, 114, 97, 99, 101, 115, 125>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 8, key |-> <<114, 97, 119, 32, 34, 32, 35, 32, 115, 116, 114, 105, 110, 103>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 8, key |-> <<116, 97, 98, 9, 110, 101, 119, 10, 108, 105, 110, 101>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 8, key |-> <<26085, 26412, 32, 233, 32, 128512>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 8, key |-> <<97>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 8, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 110>>, sz |-> 0, tp |-> <<>>],
  (* 232 *) [k |-> "enum", ty |-> "RnE", traits |-> {"Debug"}, repr |-> "u8", name |-> "RnE", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "struct", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 8, key |-> <<116, 104, 101, 32, 120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 8, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<102, 105, 114, 115, 116>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 8, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 110, 69>>, sz |-> 0, tp |-> <<>>],
  (* 233 *) [k |-> "struct", ty |-> "Dc", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Dc", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 34, 113, 117, 111, 116, 101, 100, 34, 32, 92, 32, 123, 98, 114, 97, 99, 101, 115, 125, 32, 92, 110>>, <<9, 116, 97, 98>>, <<>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 8, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 98, 108, 111, 99, 107, 32>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 8, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<<<101, 120, 112, 108, 105, 99, 105, 116, 32, 34, 113, 34>>, <<32, 116, 104, 101, 110>>, <<114, 97, 119, 32, 92>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 8, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 119, 105, 116, 104, 32, 111, 116, 104, 101, 114, 115>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 8, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 117, 110, 105, 99, 111, 100, 101, 32, 233, 32, 26085, 26412, 32, 128512, 32>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 8, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 32, 108, 101, 97, 100, 105, 110, 103>>, <<32, 35, 32, 72, 101, 97, 100, 105, 110, 103>>, <<>>, <<32, 96, 96, 96>>, <<32, 99, 111, 100, 101, 32, 34, 120, 34, 32, 92>>, <<32, 96, 96, 96>>>>, tn |-> <<68, 99>>, sz |-> 0, tp |-> <<>>],
  (* 234 *) [k |-> "struct", ty |-> "DcT", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "DcT", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 105, 110, 108, 105, 110, 101>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97>>, <<32, 98>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<68, 99, 84>>, sz |-> 0, tp |-> <<>>],
  (* 235 *) [k |-> "struct", ty |-> "DcU", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "unit", name |-> "DcU", f |-> <<>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 97, 32, 117, 110, 105, 116>>, <<32, 100, 111, 99, 117, 109, 101, 110, 116, 101, 100>>>>, tn |-> <<68, 99, 85>>, sz |-> 0, tp |-> <<>>],
  (* 236 *) [k |-> "enum", ty |-> "DcE", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "DcE", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<<<32, 34, 65, 34, 32, 92>>>>, f |-> <<>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<<<32, 66, 32, 123, 125, 32>>>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<<<102>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "struct", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 8, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 120>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 69>>>>, tn |-> <<68, 99, 69>>, sz |-> 0, tp |-> <<>>],
  (* 237 *) [k |-> "struct", ty |-> "Att", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, sk |-> "struct", name |-> "Att", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<102, 111, 111>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 8, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<102, 111, 111, 61, 51>>, <<98, 97, 114, 40, 98, 97, 122, 44, 52, 41>>, <<113, 117, 117, 120, 61, 34, 115, 34>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 8, key |-> <<115, 101, 101>>, dn |-> <<99>>, def |-> "own", sens |-> TRUE, doc |-> <<>>, ren |-> TRUE, arb |-> <<<<120, 58, 58, 121>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 6, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 8, key |-> <<101>>, dn |-> <<101>>, def |-> "seven", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<<<116, 111, 111, 108, 61, 34, 120, 34>>, <<108, 111, 110, 101>>, <<99, 97, 108, 108, 40, 97, 44, 98, 61, 50, 41>>>>, deny |-> TRUE, dflt |-> TRUE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 116, 116>>, sz |-> 0, tp |-> <<>>],
  (* 238 *) [k |-> "struct", ty |-> "AttT", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "AttT", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<107, 61, 49>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<111, 110, 101>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<<<116>>>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 116, 116, 84>>, sz |-> 0, tp |-> <<>>],
  (* 239 *) [k |-> "enum", ty |-> "AttE", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "AttE", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "struct", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 8, key |-> <<101, 120>>, dn |-> <<120>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> TRUE, arb |-> <<<<122>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 8, key |-> <<121>>, dn |-> <<121>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<<<111, 110, 95, 101, 110, 117, 109>>>>, deny |-> TRUE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 116, 116, 69>>, sz |-> 0, tp |-> <<>>],
  (* 240 *) [k |-> "struct", ty |-> "AttU", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "unit", name |-> "AttU", f |-> <<>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<<<117, 110, 105, 116, 121>>>>, deny |-> TRUE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<65, 116, 116, 85>>, sz |-> 0, tp |-> <<>>],
  (* 241 *) [k |-> "struct", ty |-> "Comma", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Comma", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "b", sh |-> 8, key |-> <<98, 101, 101>>, dn |-> <<98>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 8, key |-> <<99>>, dn |-> <<99>>, def |-> "seven", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<102, 111, 111, 40, 49, 44, 50, 41>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 8, key |-> <<100>>, dn |-> <<100>>, def |-> "own", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<67, 111, 109, 109, 97>>, sz |-> 0, tp |-> <<>>],
  (* 242 *) [k |-> "struct", ty |-> "CommaArb", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "CommaArb", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<67, 111, 109, 109, 97, 65, 114, 98>>, sz |-> 0, tp |-> <<>>],
  (* 243 *) [k |-> "struct", ty |-> "CommaRen", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "CommaRen", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97, 121>>, dn |-> <<97>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<67, 111, 109, 109, 97, 82, 101, 110>>, sz |-> 0, tp |-> <<>>],
  (* 244 *) [k |-> "struct", ty |-> "LyC", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "LyC", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 10, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 9, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 11, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 8, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 67>>, sz |-> 0, tp |-> <<>>],
  (* 245 *) [k |-> "struct", ty |-> "LyR", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "LyR", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 10, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 9, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 11, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 8, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 82>>, sz |-> 0, tp |-> <<>>],
  (* 246 *) [k |-> "struct", ty |-> "LyA", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "LyA", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 9, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 32, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 65>>, sz |-> 0, tp |-> <<>>],
  (* 247 *) [k |-> "struct", ty |-> "LyCA", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "LyCA", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 246, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 8, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 64, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 67, 65>>, sz |-> 0, tp |-> <<>>],
  (* 248 *) [k |-> "struct", ty |-> "LyT", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, sk |-> "tuplestruct", name |-> "LyT", f |-> <<[n |-> "0", sh |-> 11, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> TRUE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 84>>, sz |-> 0, tp |-> <<>>],
  (* 249 *) [k |-> "struct", ty |-> "LyZ", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "LyZ", f |-> <<[n |-> "a", sh |-> 1, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 250, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 33, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 8, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 251, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 90>>, sz |-> 0, tp |-> <<>>],
  (* 250 *) [k |-> "array", ty |-> "[u64;0]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 11, n |-> 0, doc |-> <<>>, tn |-> <<91, 117, 54, 52, 59, 32, 48, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 11]>>],
  (* 251 *) [k |-> "array", ty |-> "[Un;3]", traits |-> {"Clone", "Debug", "PartialEq"}, t |-> 33, n |-> 3, doc |-> <<>>, tn |-> <<91, 85, 110, 59, 32, 51, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 33]>>],
  (* 252 *) [k |-> "struct", ty |-> "LyN", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "LyN", f |-> <<[n |-> "a", sh |-> 253, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 254, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 255, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "d", sh |-> 248, key |-> <<100>>, dn |-> <<100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "e", sh |-> 173, key |-> <<101>>, dn |-> <<101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f", sh |-> 5, key |-> <<102>>, dn |-> <<102>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "g", sh |-> 2, key |-> <<103>>, dn |-> <<103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "h", sh |-> 12, key |-> <<104>>, dn |-> <<104>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 78>>, sz |-> 0, tp |-> <<>>],
  (* 253 *) [k |-> "struct", ty |-> "(u8,u32,u8)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,u32,u8)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 10, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 8, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 117, 51, 50, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 254 *) [k |-> "array", ty |-> "[LyC;2]", traits |-> {"Clone", "Debug", "PartialEq"}, t |-> 244, n |-> 2, doc |-> <<>>, tn |-> <<91, 76, 121, 67, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 244]>>],
  (* 255 *) [k |-> "option", ty |-> "Option<LyA>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 246, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 76, 121, 65, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 246]>>],
  (* 256 *) [k |-> "enum", ty |-> "LyU8", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "LyU8", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 11, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_2", sh |-> 8, key |-> <<95, 50>>, dn |-> <<95, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 9, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "tuple", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 246, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Z", key |-> <<90>>, kind |-> "unit", disc |-> <<3>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 85, 56>>, sz |-> 0, tp |-> <<>>],
  (* 257 *) [k |-> "enum", ty |-> "LyU64", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u64", name |-> "LyU64", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "unit", disc |-> <<5, 7, 6, 4, 6, 0, 7, 5, 2, 3, 0, 3, 4, 2, 3, 4, 8, 6>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 85, 54, 52>>, sz |-> 0, tp |-> <<>>],
  (* 258 *) [k |-> "enum", ty |-> "LyI8", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "i8", name |-> "LyI8", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "unit", disc |-> <<5>>, doc |-> <<>>, f |-> <<>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<6>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 10, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "unit", disc |-> <<1, 2, 7>>, doc |-> <<>>, f |-> <<>>], [n |-> "D", key |-> <<68>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 6, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 73, 56>>, sz |-> 0, tp |-> <<>>],
  (* 259 *) [k |-> "enum", ty |-> "LyI16", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "i16", name |-> "LyI16", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<1, 5>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1, 6>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 11, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 73, 49, 54>>, sz |-> 0, tp |-> <<>>],
  (* 260 *) [k |-> "enum", ty |-> "LyU32", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u32", name |-> "LyU32", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "unit", disc |-> <<1, 0, 0, 0, 0, 0, 0>>, doc |-> <<>>, f |-> <<>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1, 0, 0, 0, 0, 0, 1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "struct", disc |-> <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 246, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 85, 51, 50>>, sz |-> 0, tp |-> <<>>],
  (* 261 *) [k |-> "enum", ty |-> "LyI32", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "i32", name |-> "LyI32", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 244, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 73, 51, 50>>, sz |-> 0, tp |-> <<>>],
  (* 262 *) [k |-> "enum", ty |-> "LyI64", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "i64", name |-> "LyI64", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 9, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<>>], [n |-> "C", key |-> <<67>>, kind |-> "struct", disc |-> <<2>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 73, 54, 52>>, sz |-> 0, tp |-> <<>>],
  (* 263 *) [k |-> "enum", ty |-> "LyUs", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "usize", name |-> "LyUs", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 12, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 85, 115>>, sz |-> 0, tp |-> <<>>],
  (* 264 *) [k |-> "enum", ty |-> "LyIs", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "isize", name |-> "LyIs", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<7, 7>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 8, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_2", sh |-> 10, key |-> <<95, 50>>, dn |-> <<95, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 73, 115>>, sz |-> 0, tp |-> <<>>],
  (* 265 *) [k |-> "enum", ty |-> "LyCn", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "C", name |-> "LyCn", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 11, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 8, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "unit", disc |-> <<2>>, doc |-> <<>>, f |-> <<>>], [n |-> "D", key |-> <<68>>, kind |-> "tuple", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 246, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 67, 110>>, sz |-> 0, tp |-> <<>>],
  (* 266 *) [k |-> "enum", ty |-> "LyCu8", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "LyCu8", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 11, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 9, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 8, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "unit", disc |-> <<9>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 67, 117, 56>>, sz |-> 0, tp |-> <<>>],
  (* 267 *) [k |-> "enum", ty |-> "LyCi16", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "i16", name |-> "LyCi16", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 11, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 9, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 8, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "unit", disc |-> <<9>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 67, 105, 49, 54>>, sz |-> 0, tp |-> <<>>],
  (* 268 *) [k |-> "enum", ty |-> "LyCd", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, repr |-> "C", name |-> "LyCd", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "unit", disc |-> <<7, 0, 0, 0, 0>>, doc |-> <<>>, f |-> <<>>], [n |-> "B", key |-> <<66>>, kind |-> "unit", disc |-> <<3>>, doc |-> <<>>, f |-> <<>>], [n |-> "C", key |-> <<67>>, kind |-> "unit", disc |-> <<4>>, doc |-> <<>>, f |-> <<>>], [n |-> "D", key |-> <<68>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<>>, f |-> <<>>], [n |-> "E", key |-> <<69>>, kind |-> "unit", disc |-> <<9, 0, 0, 0, 0>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 67, 100>>, sz |-> 0, tp |-> <<>>],
  (* 269 *) [k |-> "enum", ty |-> "LyCe", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "i16", name |-> "LyCe", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<5, 0, 0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "unit", disc |-> <<3>>, doc |-> <<>>, f |-> <<>>], [n |-> "C", key |-> <<67>>, kind |-> "struct", disc |-> <<4>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 9, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "D", key |-> <<68>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 6, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 67, 101>>, sz |-> 0, tp |-> <<>>],
  (* 270 *) [k |-> "enum", ty |-> "LyDu", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, repr |-> "u8", name |-> "LyDu", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "unit", disc |-> <<9>>, doc |-> <<>>, f |-> <<>>], [n |-> "B", key |-> <<66>>, kind |-> "unit", disc |-> <<1, 0>>, doc |-> <<>>, f |-> <<>>], [n |-> "C", key |-> <<67>>, kind |-> "unit", disc |-> <<2>>, doc |-> <<>>, f |-> <<>>], [n |-> "D", key |-> <<68>>, kind |-> "unit", disc |-> <<3>>, doc |-> <<>>, f |-> <<>>], [n |-> "E", key |-> <<69>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<>>, f |-> <<>>], [n |-> "F", key |-> <<70>>, kind |-> "unit", disc |-> <<2, 5, 5>>, doc |-> <<>>, f |-> <<>>], [n |-> "G", key |-> <<71>>, kind |-> "unit", disc |-> <<4>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 68, 117>>, sz |-> 0, tp |-> <<>>],
  (* 271 *) [k |-> "enum", ty |-> "LyTC", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u32", name |-> "LyTC", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 11, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 121, 84, 67>>, sz |-> 0, tp |-> <<>>],
  (* 272 *) [k |-> "struct", ty |-> "Oq", traits |-> {"Clone"}, sk |-> "struct", name |-> "Oq", f |-> <<[n |-> "h", sh |-> 273, key |-> <<104>>, dn |-> <<104>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 8, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<79, 113>>, sz |-> 0, tp |-> <<>>],
  (* 273 *) [k |-> "opaque", ty |-> "Opaque<Arc<Hidden>>", traits |-> {"Clone"}, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<>>],
  (* 274 *) [k |-> "struct", ty |-> "Wk", traits |-> {"Clone"}, sk |-> "struct", name |-> "Wk", f |-> <<[n |-> "s", sh |-> 68, key |-> <<115>>, dn |-> <<115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 8, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 275, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<87, 107>>, sz |-> 0, tp |-> <<>>],
  (* 275 *) [k |-> "weak", ty |-> "Weak<Tk>", traits |-> {"Clone", "Debug", "Default"}, t |-> 7, doc |-> <<>>, tn |-> <<87, 101, 97, 107>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 7]>>],
  (* 276 *) [k |-> "struct", ty |-> "Ph", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "struct", name |-> "Ph", f |-> <<[n |-> "a", sh |-> 277, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 278, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 8, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<80, 104>>, sz |-> 0, tp |-> <<>>],
  (* 277 *) [k |-> "scalar", ty |-> "PhU8", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, s |-> "PhU8", doc |-> <<>>, tn |-> <<80, 104, 97, 110, 116, 111, 109, 68, 97, 116, 97>>, sz |-> 0, tp |-> <<>>],
  (* 278 *) [k |-> "scalar", ty |-> "PhNo", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, s |-> "PhNo", doc |-> <<>>, tn |-> <<80, 104, 97, 110, 116, 111, 109, 68, 97, 116, 97>>, sz |-> 0, tp |-> <<>>],
  (* 279 *) [k |-> "struct", ty |-> "Hm", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Hm", f |-> <<[n |-> "a", sh |-> 280, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 281, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<72, 109>>, sz |-> 0, tp |-> <<>>],
  (* 280 *) [k |-> "map", ty |-> "HashMap<u8,u16,Hs>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 8, vt |-> 9, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 117, 49, 54, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 9], [n |-> "S", sh |-> 0]>>],
  (* 281 *) [k |-> "map", ty |-> "HashMap<u8,u16>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 8, vt |-> 9, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 117, 49, 54, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 9], [n |-> "S", sh |-> 0]>>],
  (* 282 *) [k |-> "struct", ty |-> "T12", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "T12", f |-> <<[n |-> "0", sh |-> 283, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 284, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 285, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<84, 49, 50>>, sz |-> 0, tp |-> <<>>],
  (* 283 *) [k |-> "struct", ty |-> "(u8,u16,u32,u64,i8,i16,i32,i64,bool,char,(),u8)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,u16,u32,u64,i8,i16,i32,i64,bool,char,(),u8)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 9, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 10, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "3", sh |-> 11, key |-> <<51>>, dn |-> <<51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "4", sh |-> 14, key |-> <<52>>, dn |-> <<52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "5", sh |-> 15, key |-> <<53>>, dn |-> <<53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "6", sh |-> 16, key |-> <<54>>, dn |-> <<54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "7", sh |-> 17, key |-> <<55>>, dn |-> <<55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "8", sh |-> 2, key |-> <<56>>, dn |-> <<56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "9", sh |-> 5, key |-> <<57>>, dn |-> <<57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "10", sh |-> 1, key |-> <<49, 48>>, dn |-> <<49, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "11", sh |-> 8, key |-> <<49, 49>>, dn |-> <<49, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 51, 50, 44, 32, 117, 54, 52, 44, 32, 105, 56, 44, 32, 105, 49, 54, 44, 32, 105, 51, 50, 44, 32, 105, 54, 52, 44, 32, 98, 111, 111, 108, 44, 32, 99, 104, 97, 114, 44, 32, 40, 41, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 284 *) [k |-> "struct", ty |-> "(u8,)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 41>>, sz |-> 0, tp |-> <<>>],
  (* 285 *) [k |-> "struct", ty |-> "((u8,),(u16,u8))", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "((u8,),(u16,u8))", f |-> <<[n |-> "0", sh |-> 284, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 286, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 40, 117, 56, 44, 41, 44, 32, 40, 117, 49, 54, 44, 32, 117, 56, 41, 41>>, sz |-> 0, tp |-> <<>>],
  (* 286 *) [k |-> "struct", ty |-> "(u16,u8)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u16,u8)", f |-> <<[n |-> "0", sh |-> 9, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 49, 54, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 287 *) [k |-> "struct", ty |-> "Slc", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Slc", f |-> <<[n |-> "a", sh |-> 288, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 289, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 290, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<83, 108, 99>>, sz |-> 0, tp |-> <<>>],
  (* 288 *) [k |-> "slice", ty |-> "Slice<u8>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 8, doc |-> <<>>, tn |-> <<38, 91, 117, 56, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 289 *) [k |-> "slice", ty |-> "Slice<Str>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 190, doc |-> <<>>, tn |-> <<38, 91, 38, 115, 116, 114, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 190]>>],
  (* 290 *) [k |-> "option", ty |-> "Option<Slice<Disp>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 291, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 38, 91, 68, 105, 115, 112, 93, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 291]>>],
  (* 291 *) [k |-> "slice", ty |-> "Slice<Disp>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 210, doc |-> <<>>, tn |-> <<38, 91, 68, 105, 115, 112, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 210]>>],
  (* 292 *) [k |-> "struct", ty |-> "W100", traits |-> {"Clone"}, sk |-> "struct", name |-> "W100", f |-> <<[n |-> "f0", sh |-> 8, key |-> <<102, 48>>, dn |-> <<102, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f1", sh |-> 8, key |-> <<102, 49>>, dn |-> <<102, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f2", sh |-> 8, key |-> <<102, 50>>, dn |-> <<102, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f3", sh |-> 8, key |-> <<102, 51>>, dn |-> <<102, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f4", sh |-> 8, key |-> <<102, 52>>, dn |-> <<102, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f5", sh |-> 8, key |-> <<102, 53>>, dn |-> <<102, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f6", sh |-> 8, key |-> <<102, 54>>, dn |-> <<102, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f7", sh |-> 8, key |-> <<102, 55>>, dn |-> <<102, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f8", sh |-> 8, key |-> <<102, 56>>, dn |-> <<102, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f9", sh |-> 8, key |-> <<102, 57>>, dn |-> <<102, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f10", sh |-> 8, key |-> <<102, 49, 48>>, dn |-> <<102, 49, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f11", sh |-> 8, key |-> <<102, 49, 49>>, dn |-> <<102, 49, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f12", sh |-> 8, key |-> <<102, 49, 50>>, dn |-> <<102, 49, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f13", sh |-> 8, key |-> <<102, 49, 51>>, dn |-> <<102, 49, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f14", sh |-> 8, key |-> <<102, 49, 52>>, dn |-> <<102, 49, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f15", sh |-> 8, key |-> <<102, 49, 53>>, dn |-> <<102, 49, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f16", sh |-> 8, key |-> <<102, 49, 54>>, dn |-> <<102, 49, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f17", sh |-> 8, key |-> <<102, 49, 55>>, dn |-> <<102, 49, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f18", sh |-> 8, key |-> <<102, 49, 56>>, dn |-> <<102, 49, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f19", sh |-> 8, key |-> <<102, 49, 57>>, dn |-> <<102, 49, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f20", sh |-> 8, key |-> <<102, 50, 48>>, dn |-> <<102, 50, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f21", sh |-> 8, key |-> <<102, 50, 49>>, dn |-> <<102, 50, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f22", sh |-> 8, key |-> <<102, 50, 50>>, dn |-> <<102, 50, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f23", sh |-> 8, key |-> <<102, 50, 51>>, dn |-> <<102, 50, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f24", sh |-> 8, key |-> <<102, 50, 52>>, dn |-> <<102, 50, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f25", sh |-> 8, key |-> <<102, 50, 53>>, dn |-> <<102, 50, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f26", sh |-> 8, key |-> <<102, 50, 54>>, dn |-> <<102, 50, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f27", sh |-> 8, key |-> <<102, 50, 55>>, dn |-> <<102, 50, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f28", sh |-> 8, key |-> <<102, 50, 56>>, dn |-> <<102, 50, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f29", sh |-> 8, key |-> <<102, 50, 57>>, dn |-> <<102, 50, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f30", sh |-> 8, key |-> <<102, 51, 48>>, dn |-> <<102, 51, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f31", sh |-> 8, key |-> <<102, 51, 49>>, dn |-> <<102, 51, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f32", sh |-> 8, key |-> <<102, 51, 50>>, dn |-> <<102, 51, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f33", sh |-> 8, key |-> <<102, 51, 51>>, dn |-> <<102, 51, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f34", sh |-> 8, key |-> <<102, 51, 52>>, dn |-> <<102, 51, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f35", sh |-> 8, key |-> <<102, 51, 53>>, dn |-> <<102, 51, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f36", sh |-> 8, key |-> <<102, 51, 54>>, dn |-> <<102, 51, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f37", sh |-> 8, key |-> <<102, 51, 55>>, dn |-> <<102, 51, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f38", sh |-> 8, key |-> <<102, 51, 56>>, dn |-> <<102, 51, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f39", sh |-> 8, key |-> <<102, 51, 57>>, dn |-> <<102, 51, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f40", sh |-> 8, key |-> <<102, 52, 48>>, dn |-> <<102, 52, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f41", sh |-> 8, key |-> <<102, 52, 49>>, dn |-> <<102, 52, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f42", sh |-> 8, key |-> <<102, 52, 50>>, dn |-> <<102, 52, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f43", sh |-> 8, key |-> <<102, 52, 51>>, dn |-> <<102, 52, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f44", sh |-> 8, key |-> <<102, 52, 52>>, dn |-> <<102, 52, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f45", sh |-> 8, key |-> <<102, 52, 53>>, dn |-> <<102, 52, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f46", sh |-> 8, key |-> <<102, 52, 54>>, dn |-> <<102, 52, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f47", sh |-> 8, key |-> <<102, 52, 55>>, dn |-> <<102, 52, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f48", sh |-> 8, key |-> <<102, 52, 56>>, dn |-> <<102, 52, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f49", sh |-> 8, key |-> <<102, 52, 57>>, dn |-> <<102, 52, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f50", sh |-> 8, key |-> <<102, 53, 48>>, dn |-> <<102, 53, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f51", sh |-> 8, key |-> <<102, 53, 49>>, dn |-> <<102, 53, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f52", sh |-> 8, key |-> <<102, 53, 50>>, dn |-> <<102, 53, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f53", sh |-> 8, key |-> <<102, 53, 51>>, dn |-> <<102, 53, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f54", sh |-> 8, key |-> <<102, 53, 52>>, dn |-> <<102, 53, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f55", sh |-> 8, key |-> <<102, 53, 53>>, dn |-> <<102, 53, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f56", sh |-> 8, key |-> <<102, 53, 54>>, dn |-> <<102, 53, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f57", sh |-> 8, key |-> <<102, 53, 55>>, dn |-> <<102, 53, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f58", sh |-> 8, key |-> <<102, 53, 56>>, dn |-> <<102, 53, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f59", sh |-> 8, key |-> <<102, 53, 57>>, dn |-> <<102, 53, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f60", sh |-> 8, key |-> <<102, 54, 48>>, dn |-> <<102, 54, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f61", sh |-> 8, key |-> <<102, 54, 49>>, dn |-> <<102, 54, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f62", sh |-> 8, key |-> <<102, 54, 50>>, dn |-> <<102, 54, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f63", sh |-> 8, key |-> <<102, 54, 51>>, dn |-> <<102, 54, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f64", sh |-> 8, key |-> <<102, 54, 52>>, dn |-> <<102, 54, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f65", sh |-> 8, key |-> <<102, 54, 53>>, dn |-> <<102, 54, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f66", sh |-> 8, key |-> <<102, 54, 54>>, dn |-> <<102, 54, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f67", sh |-> 8, key |-> <<102, 54, 55>>, dn |-> <<102, 54, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f68", sh |-> 8, key |-> <<102, 54, 56>>, dn |-> <<102, 54, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f69", sh |-> 8, key |-> <<102, 54, 57>>, dn |-> <<102, 54, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f70", sh |-> 8, key |-> <<102, 55, 48>>, dn |-> <<102, 55, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f71", sh |-> 8, key |-> <<102, 55, 49>>, dn |-> <<102, 55, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f72", sh |-> 8, key |-> <<102, 55, 50>>, dn |-> <<102, 55, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f73", sh |-> 8, key |-> <<102, 55, 51>>, dn |-> <<102, 55, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f74", sh |-> 8, key |-> <<102, 55, 52>>, dn |-> <<102, 55, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f75", sh |-> 8, key |-> <<102, 55, 53>>, dn |-> <<102, 55, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f76", sh |-> 8, key |-> <<102, 55, 54>>, dn |-> <<102, 55, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f77", sh |-> 8, key |-> <<102, 55, 55>>, dn |-> <<102, 55, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f78", sh |-> 8, key |-> <<102, 55, 56>>, dn |-> <<102, 55, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f79", sh |-> 8, key |-> <<102, 55, 57>>, dn |-> <<102, 55, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f80", sh |-> 8, key |-> <<102, 56, 48>>, dn |-> <<102, 56, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f81", sh |-> 8, key |-> <<102, 56, 49>>, dn |-> <<102, 56, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f82", sh |-> 8, key |-> <<102, 56, 50>>, dn |-> <<102, 56, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f83", sh |-> 8, key |-> <<102, 56, 51>>, dn |-> <<102, 56, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f84", sh |-> 8, key |-> <<102, 56, 52>>, dn |-> <<102, 56, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f85", sh |-> 8, key |-> <<102, 56, 53>>, dn |-> <<102, 56, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f86", sh |-> 8, key |-> <<102, 56, 54>>, dn |-> <<102, 56, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f87", sh |-> 8, key |-> <<102, 56, 55>>, dn |-> <<102, 56, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f88", sh |-> 8, key |-> <<102, 56, 56>>, dn |-> <<102, 56, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f89", sh |-> 8, key |-> <<102, 56, 57>>, dn |-> <<102, 56, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f90", sh |-> 8, key |-> <<102, 57, 48>>, dn |-> <<102, 57, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f91", sh |-> 8, key |-> <<102, 57, 49>>, dn |-> <<102, 57, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f92", sh |-> 8, key |-> <<102, 57, 50>>, dn |-> <<102, 57, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f93", sh |-> 8, key |-> <<102, 57, 51>>, dn |-> <<102, 57, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f94", sh |-> 8, key |-> <<102, 57, 52>>, dn |-> <<102, 57, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f95", sh |-> 8, key |-> <<102, 57, 53>>, dn |-> <<102, 57, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f96", sh |-> 8, key |-> <<102, 57, 54>>, dn |-> <<102, 57, 54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f97", sh |-> 8, key |-> <<102, 57, 55>>, dn |-> <<102, 57, 55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f98", sh |-> 8, key |-> <<102, 57, 56>>, dn |-> <<102, 57, 56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "f99", sh |-> 8, key |-> <<102, 57, 57>>, dn |-> <<102, 57, 57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<87, 49, 48, 48>>, sz |-> 0, tp |-> <<>>],
  (* 293 *) [k |-> "enum", ty |-> "E40", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "E40", vs |-> <<[n |-> "V0", key |-> <<86, 48>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V1", key |-> <<86, 49>>, kind |-> "unit", disc |-> <<1>>, doc |-> <<>>, f |-> <<>>], [n |-> "V2", key |-> <<86, 50>>, kind |-> "unit", disc |-> <<2>>, doc |-> <<>>, f |-> <<>>], [n |-> "V3", key |-> <<86, 51>>, kind |-> "tuple", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V4", key |-> <<86, 52>>, kind |-> "unit", disc |-> <<4>>, doc |-> <<>>, f |-> <<>>], [n |-> "V5", key |-> <<86, 53>>, kind |-> "unit", disc |-> <<5>>, doc |-> <<>>, f |-> <<>>], [n |-> "V6", key |-> <<86, 54>>, kind |-> "tuple", disc |-> <<6>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V7", key |-> <<86, 55>>, kind |-> "unit", disc |-> <<7>>, doc |-> <<>>, f |-> <<>>], [n |-> "V8", key |-> <<86, 56>>, kind |-> "unit", disc |-> <<8>>, doc |-> <<>>, f |-> <<>>], [n |-> "V9", key |-> <<86, 57>>, kind |-> "tuple", disc |-> <<9>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V10", key |-> <<86, 49, 48>>, kind |-> "unit", disc |-> <<1, 0>>, doc |-> <<>>, f |-> <<>>], [n |-> "V11", key |-> <<86, 49, 49>>, kind |-> "unit", disc |-> <<1, 1>>, doc |-> <<>>, f |-> <<>>], [n |-> "V12", key |-> <<86, 49, 50>>, kind |-> "tuple", disc |-> <<1, 2>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V13", key |-> <<86, 49, 51>>, kind |-> "unit", disc |-> <<1, 3>>, doc |-> <<>>, f |-> <<>>], [n |-> "V14", key |-> <<86, 49, 52>>, kind |-> "unit", disc |-> <<1, 4>>, doc |-> <<>>, f |-> <<>>], [n |-> "V15", key |-> <<86, 49, 53>>, kind |-> "tuple", disc |-> <<1, 5>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V16", key |-> <<86, 49, 54>>, kind |-> "unit", disc |-> <<1, 6>>, doc |-> <<>>, f |-> <<>>], [n |-> "V17", key |-> <<86, 49, 55>>, kind |-> "unit", disc |-> <<1, 7>>, doc |-> <<>>, f |-> <<>>], [n |-> "V18", key |-> <<86, 49, 56>>, kind |-> "tuple", disc |-> <<1, 8>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V19", key |-> <<86, 49, 57>>, kind |-> "unit", disc |-> <<1, 9>>, doc |-> <<>>, f |-> <<>>], [n |-> "V20", key |-> <<86, 50, 48>>, kind |-> "unit", disc |-> <<2, 0>>, doc |-> <<>>, f |-> <<>>], [n |-> "V21", key |-> <<86, 50, 49>>, kind |-> "tuple", disc |-> <<2, 1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V22", key |-> <<86, 50, 50>>, kind |-> "unit", disc |-> <<2, 2>>, doc |-> <<>>, f |-> <<>>], [n |-> "V23", key |-> <<86, 50, 51>>, kind |-> "unit", disc |-> <<2, 3>>, doc |-> <<>>, f |-> <<>>], [n |-> "V24", key |-> <<86, 50, 52>>, kind |-> "tuple", disc |-> <<2, 4>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V25", key |-> <<86, 50, 53>>, kind |-> "unit", disc |-> <<2, 5>>, doc |-> <<>>, f |-> <<>>], [n |-> "V26", key |-> <<86, 50, 54>>, kind |-> "unit", disc |-> <<2, 6>>, doc |-> <<>>, f |-> <<>>], [n |-> "V27", key |-> <<86, 50, 55>>, kind |-> "tuple", disc |-> <<2, 7>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V28", key |-> <<86, 50, 56>>, kind |-> "unit", disc |-> <<2, 8>>, doc |-> <<>>, f |-> <<>>], [n |-> "V29", key |-> <<86, 50, 57>>, kind |-> "unit", disc |-> <<2, 9>>, doc |-> <<>>, f |-> <<>>], [n |-> "V30", key |-> <<86, 51, 48>>, kind |-> "tuple", disc |-> <<3, 0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V31", key |-> <<86, 51, 49>>, kind |-> "unit", disc |-> <<3, 1>>, doc |-> <<>>, f |-> <<>>], [n |-> "V32", key |-> <<86, 51, 50>>, kind |-> "unit", disc |-> <<3, 2>>, doc |-> <<>>, f |-> <<>>], [n |-> "V33", key |-> <<86, 51, 51>>, kind |-> "tuple", disc |-> <<3, 3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V34", key |-> <<86, 51, 52>>, kind |-> "unit", disc |-> <<3, 4>>, doc |-> <<>>, f |-> <<>>], [n |-> "V35", key |-> <<86, 51, 53>>, kind |-> "unit", disc |-> <<3, 5>>, doc |-> <<>>, f |-> <<>>], [n |-> "V36", key |-> <<86, 51, 54>>, kind |-> "tuple", disc |-> <<3, 6>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V37", key |-> <<86, 51, 55>>, kind |-> "unit", disc |-> <<3, 7>>, doc |-> <<>>, f |-> <<>>], [n |-> "V38", key |-> <<86, 51, 56>>, kind |-> "unit", disc |-> <<3, 8>>, doc |-> <<>>, f |-> <<>>], [n |-> "V39", key |-> <<86, 51, 57>>, kind |-> "tuple", disc |-> <<3, 9>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<69, 52, 48>>, sz |-> 0, tp |-> <<>>],
  (* 294 *) [k |-> "struct", ty |-> "Rg00", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rg00", f |-> <<[n |-> "_q", sh |-> 36, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 48, 48>>, sz |-> 0, tp |-> <<>>],
  (* 295 *) [k |-> "struct", ty |-> "Rg01", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rg01", f |-> <<[n |-> "is_on", sh |-> 24, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 48, 49>>, sz |-> 0, tp |-> <<>>],
  (* 296 *) [k |-> "enum", ty |-> "Rg02", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "i32", name |-> "Rg02", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<<<32, 111, 102, 32, 65>>>>, f |-> <<[n |-> "_0", sh |-> 12, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 51, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_2", sh |-> 52, key |-> <<95, 50>>, dn |-> <<95, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Struct", key |-> <<83, 116, 114, 117, 99, 116>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 4, key |-> <<65, 32, 98, 49, 56, 53>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 48, 50>>, sz |-> 0, tp |-> <<>>],
  (* 297 *) [k |-> "struct", ty |-> "Rg03", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rg03", f |-> <<[n |-> "id", sh |-> 5, key |-> <<110, 233, 56, 51>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 19, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "x1", sh |-> 8, key |-> <<65, 32, 98, 50, 52, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 34, 113, 117, 111, 116, 101, 100, 34>>, <<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "T", sh |-> 48, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 296, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_q", sh |-> 24, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "a", sh |-> 23, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "is_on", sh |-> 7, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "kids", sh |-> 284, key |-> <<107, 105, 100, 115>>, dn |-> <<107, 105, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 7, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "left_over", sh |-> 7, key |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, dn |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ünï", sh |-> 68, key |-> <<252, 110, 239>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 48, 51>>, sz |-> 0, tp |-> <<>>],
  (* 298 *) [k |-> "enum", ty |-> "Rg04", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "isize", name |-> "Rg04", vs |-> <<[n |-> "V2", key |-> <<86, 50>>, kind |-> "struct", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "i", sh |-> 52, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "is_on", sh |-> 191, key |-> <<110, 233, 53, 50>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 185, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<108, 101, 118, 101, 108, 61, 51>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 50, key |-> <<110, 233, 54, 53, 50>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Vv", key |-> <<86, 118>>, kind |-> "struct", disc |-> <<3, 2>>, doc |-> <<<<32, 111, 102, 32, 86, 118>>>>, f |-> <<[n |-> "len", sh |-> 10, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 26, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_q", sh |-> 1, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 244, key |-> <<65, 32, 98, 54, 48, 48>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Struct", key |-> <<83, 116, 114, 117, 99, 116>>, kind |-> "struct", disc |-> <<3, 3>>, doc |-> <<>>, f |-> <<[n |-> "is_on", sh |-> 11, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "id", sh |-> 36, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Tuple", key |-> <<84, 117, 112, 108, 101>>, kind |-> "struct", disc |-> <<2, 1>>, doc |-> <<>>, f |-> <<[n |-> "_q", sh |-> 48, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 177, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ünï", sh |-> 35, key |-> <<252, 110, 239>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "a", sh |-> 2, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V1", key |-> <<86, 49>>, kind |-> "unit", disc |-> <<3, 9, 7, 0, 7, 3, 1, 4, 1, 8, 4, 8>>, doc |-> <<>>, f |-> <<>>], [n |-> "A", key |-> <<65>>, kind |-> "struct", disc |-> <<2, 0>>, doc |-> <<>>, f |-> <<[n |-> "id", sh |-> 209, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "String", key |-> <<83, 116, 114, 105, 110, 103>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 299, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 9, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 34, 113, 117, 111, 116, 101, 100, 34>>, <<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_2", sh |-> 297, key |-> <<95, 50>>, dn |-> <<95, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_3", sh |-> 46, key |-> <<95, 51>>, dn |-> <<95, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<99, 97, 108, 108, 40, 120, 41>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_4", sh |-> 28, key |-> <<110, 233, 50, 55, 52>>, dn |-> <<95, 52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_5", sh |-> 190, key |-> <<95, 53>>, dn |-> <<95, 53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "AlphaBeta", key |-> <<65, 108, 112, 104, 97, 66, 101, 116, 97>>, kind |-> "tuple", disc |-> <<2>>, doc |-> <<<<32, 111, 102, 32, 65, 108, 112, 104, 97, 66, 101, 116, 97>>>>, f |-> <<[n |-> "_0", sh |-> 6, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 48, 52>>, sz |-> 0, tp |-> <<>>],
  (* 299 *) [k |-> "option", ty |-> "Option<Rg01>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 295, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 82, 103, 48, 49, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 295]>>],
  (* 300 *) [k |-> "struct", ty |-> "Rg05", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "Rg05", f |-> <<[n |-> "0", sh |-> 5, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 48, 53>>, sz |-> 0, tp |-> <<>>],
  (* 301 *) [k |-> "struct", ty |-> "Rg06", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "Rg06", f |-> <<[n |-> "0", sh |-> 18, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 191, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 114, 97, 110, 100, 111, 109>>>>, tn |-> <<82, 103, 48, 54>>, sz |-> 0, tp |-> <<>>],
  (* 302 *) [k |-> "enum", ty |-> "Rg07", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "i32", name |-> "Rg07", vs |-> <<[n |-> "Err", key |-> <<69, 114, 114>>, kind |-> "struct", disc |-> <<1, 9, 5, 3, 8, 3, 5, 7, 4, 9>>, doc |-> <<>>, f |-> <<[n |-> "with_a_rather_long_name_of_many_words", sh |-> 303, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 116, 119, 105, 99, 101>>, <<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<1, 9, 5, 3, 8, 3, 5, 7, 5, 0>>, doc |-> <<>>, f |-> <<[n |-> "Kind", sh |-> 7, key |-> <<111, 116, 104, 101, 114, 50, 55>>, dn |-> <<75, 105, 110, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "a", sh |-> 76, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 294, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 34, 113, 117, 111, 116, 101, 100, 34>>, <<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V1", key |-> <<86, 49>>, kind |-> "tuple", disc |-> <<5, 6, 2, 0, 0, 0, 0, 7, 7>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 209, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 304, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<115, 112, 97, 114, 101>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<5, 6, 2, 0, 0, 0, 0, 7, 8>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 21, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 305, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_2", sh |-> 31, key |-> <<95, 50>>, dn |-> <<95, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 48, 55>>, sz |-> 0, tp |-> <<>>],
  (* 303 *) [k |-> "map", ty |-> "HashMap<u8,Tk>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 8, vt |-> 7, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 84, 107, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 7], [n |-> "S", sh |-> 0]>>],
  (* 304 *) [k |-> "list", ty |-> "Vec<Rg04>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 298, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 82, 103, 48, 52, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 298]>>],
  (* 305 *) [k |-> "list", ty |-> "Vec<Rg02>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 296, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 82, 103, 48, 50, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 296]>>],
  (* 306 *) [k |-> "struct", ty |-> "Rg08", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rg08", f |-> <<[n |-> "v", sh |-> 195, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 7, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 114, 97, 110, 100, 111, 109>>>>, tn |-> <<82, 103, 48, 56>>, sz |-> 0, tp |-> <<>>],
  (* 307 *) [k |-> "enum", ty |-> "Rg09", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u32", name |-> "Rg09", vs |-> <<[n |-> "x", key |-> <<120>>, kind |-> "struct", disc |-> <<1, 6, 7, 5, 8, 9, 1, 4, 6, 2>>, doc |-> <<<<32, 111, 102, 32, 120>>>>, f |-> <<[n |-> "left_over", sh |-> 7, key |-> <<116, 121, 112, 101, 53, 53, 54>>, dn |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97, 98, 111, 117, 116, 32, 105, 116>>, <<32, 34, 113, 117, 111, 116, 101, 100, 34>>>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tag", sh |-> 50, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 301, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Zed", key |-> <<90, 101, 100>>, kind |-> "tuple", disc |-> <<1, 6, 7, 5, 8, 9, 1, 4, 6, 3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 186, key |-> <<65, 32, 98, 49, 57, 56>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Vv", key |-> <<86, 118>>, kind |-> "struct", disc |-> <<6, 6>>, doc |-> <<>>, f |-> <<[n |-> "x1", sh |-> 300, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "value", sh |-> 302, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 48, 57>>, sz |-> 0, tp |-> <<>>],
  (* 308 *) [k |-> "struct", ty |-> "Rg10", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuplestruct", name |-> "Rg10", f |-> <<[n |-> "0", sh |-> 30, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 114, 97, 110, 100, 111, 109>>>>, tn |-> <<82, 103, 49, 48>>, sz |-> 0, tp |-> <<>>],
  (* 309 *) [k |-> "enum", ty |-> "Rg11", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "C", name |-> "Rg11", vs |-> <<[n |-> "Ok", key |-> <<79, 107>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 300, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 17, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 209, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Unit", key |-> <<85, 110, 105, 116>>, kind |-> "struct", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "name", sh |-> 298, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 257, key |-> <<111, 116, 104, 101, 114, 51, 53, 54>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 8, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<99, 97, 108, 108, 40, 120, 41>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 22, key |-> <<116, 121, 112, 101, 56, 53, 57>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 310, key |-> <<116, 121, 112, 101, 55>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97, 98, 111, 117, 116, 32, 105, 116>>, <<32, 116, 119, 105, 99, 101>>>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "key", sh |-> 306, key |-> <<107, 101, 121>>, dn |-> <<107, 101, 121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Self_", key |-> <<83, 101, 108, 102, 95>>, kind |-> "tuple", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 50, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V1", key |-> <<86, 49>>, kind |-> "tuple", disc |-> <<4>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 80, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<5>>, doc |-> <<>>, f |-> <<[n |-> "is_on", sh |-> 19, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> TRUE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 49, 49>>, sz |-> 0, tp |-> <<>>],
  (* 310 *) [k |-> "list", ty |-> "Vec<P2>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 30, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 80, 50, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 30]>>],
  (* 311 *) [k |-> "enum", ty |-> "Rg12", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u32", name |-> "Rg12", vs |-> <<[n |-> "Self_", key |-> <<83, 101, 108, 102, 95>>, kind |-> "struct", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "i", sh |-> 312, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "T", sh |-> 307, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_q", sh |-> 20, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 116, 119, 105, 99, 101>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tag", sh |-> 68, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<99, 97, 108, 108, 40, 120, 41>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Err", key |-> <<69, 114, 114>>, kind |-> "tuple", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 284, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 209, key |-> <<111, 116, 104, 101, 114, 57, 50, 55>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "unit", disc |-> <<8>>, doc |-> <<>>, f |-> <<>>], [n |-> "Struct", key |-> <<83, 116, 114, 117, 99, 116>>, kind |-> "unit", disc |-> <<9>>, doc |-> <<>>, f |-> <<>>], [n |-> "Zed", key |-> <<90, 101, 100>>, kind |-> "struct", disc |-> <<1, 0>>, doc |-> <<>>, f |-> <<[n |-> "v", sh |-> 26, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "key", sh |-> 313, key |-> <<107, 101, 121>>, dn |-> <<107, 101, 121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 306, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "value", sh |-> 8, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 34, 113, 117, 111, 116, 101, 100, 34>>, <<32, 34, 113, 117, 111, 116, 101, 100, 34>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ünï", sh |-> 175, key |-> <<110, 233, 55, 54, 50>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tag", sh |-> 209, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Ok", key |-> <<79, 107>>, kind |-> "tuple", disc |-> <<1, 1>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 314, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 34, 113, 117, 111, 116, 101, 100, 34>>, <<32, 34, 113, 117, 111, 116, 101, 100, 34>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 12, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> TRUE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_2", sh |-> 284, key |-> <<95, 50>>, dn |-> <<95, 50>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 116, 119, 105, 99, 101>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_3", sh |-> 302, key |-> <<116, 121, 112, 101, 56, 52, 57>>, dn |-> <<95, 51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Vv", key |-> <<86, 118>>, kind |-> "unit", disc |-> <<1, 2>>, doc |-> <<>>, f |-> <<>>], [n |-> "Tuple", key |-> <<84, 117, 112, 108, 101>>, kind |-> "struct", disc |-> <<1, 3>>, doc |-> <<>>, f |-> <<[n |-> "id", sh |-> 312, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "kids", sh |-> 24, key |-> <<107, 105, 100, 115>>, dn |-> <<107, 105, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 294, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tag", sh |-> 14, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "is_on", sh |-> 19, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 309, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<115, 112, 97, 114, 101>>>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 49, 50>>, sz |-> 0, tp |-> <<>>],
  (* 312 *) [k |-> "option", ty |-> "Option<Rg11>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 309, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 82, 103, 49, 49, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 309]>>],
  (* 313 *) [k |-> "option", ty |-> "Option<Rg04>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 298, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 82, 103, 48, 52, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 298]>>],
  (* 314 *) [k |-> "list", ty |-> "Vec<Vec<Tk>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 36, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 86, 101, 99, 60, 84, 107, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 36]>>],
  (* 315 *) [k |-> "struct", ty |-> "Rg13", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rg13", f |-> <<[n |-> "len", sh |-> 314, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 151, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "value", sh |-> 76, key |-> <<65, 32, 98, 52, 55, 51>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "x1", sh |-> 306, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 49, 51>>, sz |-> 0, tp |-> <<>>],
  (* 316 *) [k |-> "enum", ty |-> "Rg14", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "i32", name |-> "Rg14", vs |-> <<[n |-> "Tuple", key |-> <<84, 117, 112, 108, 101>>, kind |-> "unit", disc |-> <<1, 5>>, doc |-> <<>>, f |-> <<>>], [n |-> "None", key |-> <<78, 111, 110, 101>>, kind |-> "struct", disc |-> <<3, 1>>, doc |-> <<>>, f |-> <<[n |-> "n", sh |-> 164, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 49, 52>>, sz |-> 0, tp |-> <<>>],
  (* 317 *) [k |-> "struct", ty |-> "Rg15", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rg15", f |-> <<[n |-> "b", sh |-> 306, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 103, 49, 53>>, sz |-> 0, tp |-> <<>>],
  (* 318 *) [k |-> "struct", ty |-> "Rj00", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rj00", f |-> <<[n |-> "x1", sh |-> 80, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 106, 48, 48>>, sz |-> 0, tp |-> <<>>],
  (* 319 *) [k |-> "struct", ty |-> "Rj01", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rj01", f |-> <<[n |-> "kids", sh |-> 3, key |-> <<107, 105, 100, 115>>, dn |-> <<107, 105, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ünï", sh |-> 318, key |-> <<252, 110, 239>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 106, 48, 49>>, sz |-> 0, tp |-> <<>>],
  (* 320 *) [k |-> "struct", ty |-> "Rj02", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rj02", f |-> <<[n |-> "v", sh |-> 17, key |-> <<65, 32, 98, 51, 51, 52>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 106, 48, 50>>, sz |-> 0, tp |-> <<>>],
  (* 321 *) [k |-> "struct", ty |-> "Rj03", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rj03", f |-> <<[n |-> "value", sh |-> 8, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "key", sh |-> 11, key |-> <<107, 101, 121>>, dn |-> <<107, 101, 121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 106, 48, 51>>, sz |-> 0, tp |-> <<>>],
  (* 322 *) [k |-> "struct", ty |-> "Rj04", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rj04", f |-> <<[n |-> "value", sh |-> 15, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 2, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 14, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tag", sh |-> 63, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "left_over", sh |-> 94, key |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, dn |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "len", sh |-> 89, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 94, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 117, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "data", sh |-> 15, key |-> <<100, 97, 116, 97>>, dn |-> <<100, 97, 116, 97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "id", sh |-> 17, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "Kind", sh |-> 323, key |-> <<75, 105, 110, 100>>, dn |-> <<75, 105, 110, 100>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "is_on", sh |-> 14, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> TRUE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 106, 48, 52>>, sz |-> 0, tp |-> <<>>],
  (* 323 *) [k |-> "option", ty |-> "Option<Rj03>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 321, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 82, 106, 48, 51, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 321]>>],
  (* 324 *) [k |-> "struct", ty |-> "Rj05", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rj05", f |-> <<[n |-> "len", sh |-> 76, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 11, key |-> <<116, 121, 112, 101, 53, 50, 54>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "value", sh |-> 4, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "id", sh |-> 323, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tag", sh |-> 318, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 2, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "is_on", sh |-> 15, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ünï", sh |-> 9, key |-> <<252, 110, 239>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "key", sh |-> 321, key |-> <<116, 121, 112, 101, 54, 56, 52>>, dn |-> <<107, 101, 121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "x1", sh |-> 319, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 325, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "kids", sh |-> 11, key |-> <<107, 105, 100, 115>>, dn |-> <<107, 105, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 106, 48, 53>>, sz |-> 0, tp |-> <<>>],
  (* 325 *) [k |-> "list", ty |-> "Vec<Rj01>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 319, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 82, 106, 48, 49, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 319]>>],
  (* 326 *) [k |-> "struct", ty |-> "Rj06", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rj06", f |-> <<[n |-> "data", sh |-> 80, key |-> <<100, 97, 116, 97>>, dn |-> <<100, 97, 116, 97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "key", sh |-> 322, key |-> <<107, 101, 121>>, dn |-> <<107, 101, 121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 321, key |-> <<116, 121, 112, 101, 52, 57, 57>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "T", sh |-> 16, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ünï", sh |-> 76, key |-> <<252, 110, 239>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97, 98, 111, 117, 116, 32, 105, 116>>, <<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_q", sh |-> 11, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "own", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 13, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 34, 113, 117, 111, 116, 101, 100, 34>>, <<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "len", sh |-> 137, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 318, key |-> <<110, 233, 55, 57, 48>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 106, 48, 54>>, sz |-> 0, tp |-> <<>>],
  (* 327 *) [k |-> "struct", ty |-> "Rj07", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rj07", f |-> <<[n |-> "left_over", sh |-> 16, key |-> <<111, 116, 104, 101, 114, 51, 52, 48>>, dn |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> TRUE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 106, 48, 55>>, sz |-> 0, tp |-> <<>>],
  (* 328 *) [k |-> "struct", ty |-> "Rm00", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rm00", f |-> <<[n |-> "value", sh |-> 17, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 34, 113, 117, 111, 116, 101, 100, 34>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "x1", sh |-> 116, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 109, 48, 48>>, sz |-> 0, tp |-> <<>>],
  (* 329 *) [k |-> "struct", ty |-> "Rm01", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rm01", f |-> <<[n |-> "_q", sh |-> 117, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 15, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "x1", sh |-> 14, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "kids", sh |-> 116, key |-> <<107, 105, 100, 115>>, dn |-> <<107, 105, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "id", sh |-> 112, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "a", sh |-> 6, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "len", sh |-> 14, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "data", sh |-> 11, key |-> <<100, 97, 116, 97>>, dn |-> <<100, 97, 116, 97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ünï", sh |-> 17, key |-> <<252, 110, 239>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 109, 48, 49>>, sz |-> 0, tp |-> <<>>],
  (* 330 *) [k |-> "struct", ty |-> "Rm02", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rm02", f |-> <<[n |-> "x1", sh |-> 329, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "T", sh |-> 9, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 10, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 15, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 109, 48, 50>>, sz |-> 0, tp |-> <<>>],
  (* 331 *) [k |-> "struct", ty |-> "Rm03", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rm03", f |-> <<[n |-> "tag", sh |-> 328, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 16, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 8, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "Kind", sh |-> 112, key |-> <<75, 105, 110, 100>>, dn |-> <<75, 105, 110, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "value", sh |-> 116, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 117, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "a", sh |-> 329, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "len", sh |-> 6, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 14, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_q", sh |-> 2, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "left_over", sh |-> 15, key |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, dn |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ünï", sh |-> 330, key |-> <<252, 110, 239>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 109, 48, 51>>, sz |-> 0, tp |-> <<>>],
  (* 332 *) [k |-> "struct", ty |-> "Rm04", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rm04", f |-> <<[n |-> "Kind", sh |-> 116, key |-> <<75, 105, 110, 100>>, dn |-> <<75, 105, 110, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 10, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "left_over", sh |-> 112, key |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, dn |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "len", sh |-> 17, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 109, 48, 52>>, sz |-> 0, tp |-> <<>>],
  (* 333 *) [k |-> "struct", ty |-> "Rt00", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rt00", f |-> <<[n |-> "len", sh |-> 107, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 16, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 130, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 116, 48, 48>>, sz |-> 0, tp |-> <<>>],
  (* 334 *) [k |-> "struct", ty |-> "Rt01", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rt01", f |-> <<[n |-> "zz", sh |-> 103, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "ünï", sh |-> 10, key |-> <<252, 110, 239>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "x1", sh |-> 130, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 6, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "len", sh |-> 15, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "T", sh |-> 103, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "is_on", sh |-> 129, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 116, 48, 49>>, sz |-> 0, tp |-> <<>>],
  (* 335 *) [k |-> "enum", ty |-> "Rt02", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u64", name |-> "Rt02", vs |-> <<[n |-> "V1", key |-> <<86, 49>>, kind |-> "struct", disc |-> <<0>>, doc |-> <<<<32, 111, 102, 32, 86, 49>>>>, f |-> <<[n |-> "x1", sh |-> 14, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Vv", key |-> <<86, 118>>, kind |-> "unit", disc |-> <<1>>, doc |-> <<>>, f |-> <<>>], [n |-> "Unit", key |-> <<85, 110, 105, 116>>, kind |-> "struct", disc |-> <<2>>, doc |-> <<>>, f |-> <<[n |-> "name", sh |-> 127, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "value", sh |-> 125, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 2, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "len", sh |-> 129, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "id", sh |-> 17, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 336, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Ok", key |-> <<79, 107>>, kind |-> "struct", disc |-> <<3>>, doc |-> <<>>, f |-> <<[n |-> "x1", sh |-> 107, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97, 98, 111, 117, 116, 32, 105, 116>>, <<32, 116, 119, 105, 99, 101>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_q", sh |-> 16, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 334, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "V2", key |-> <<86, 50>>, kind |-> "unit", disc |-> <<5, 2, 0, 8, 5, 3, 9, 7, 5, 6, 4, 0>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 116, 48, 50>>, sz |-> 0, tp |-> <<>>],
  (* 336 *) [k |-> "option", ty |-> "Option<Rt01>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 334, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 82, 116, 48, 49, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 334]>>],
  (* 337 *) [k |-> "struct", ty |-> "Rt03", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rt03", f |-> <<[n |-> "x1", sh |-> 103, key |-> <<120, 49>>, dn |-> <<120, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 4, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "Kind", sh |-> 335, key |-> <<75, 105, 110, 100>>, dn |-> <<75, 105, 110, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "is_on", sh |-> 121, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tag", sh |-> 127, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 80, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "id", sh |-> 104, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 15, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "T", sh |-> 4, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 338, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "a", sh |-> 15, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_q", sh |-> 336, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 116, 48, 51>>, sz |-> 0, tp |-> <<>>],
  (* 338 *) [k |-> "option", ty |-> "Option<Rt00>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 333, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 82, 116, 48, 48, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 333]>>],
  (* 339 *) [k |-> "enum", ty |-> "Rt04", traits |-> {"Clone", "Debug", "PartialEq"}, repr |-> "u8", name |-> "Rt04", vs |-> <<[n |-> "V1", key |-> <<86, 49>>, kind |-> "unit", disc |-> <<0>>, doc |-> <<>>, f |-> <<>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<5, 0>>, doc |-> <<>>, f |-> <<[n |-> "T", sh |-> 10, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 17, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "Vv", key |-> <<86, 118>>, kind |-> "struct", disc |-> <<5, 1>>, doc |-> <<>>, f |-> <<[n |-> "len", sh |-> 89, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 116, 119, 105, 99, 101>>, <<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 334, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 116, 48, 52>>, sz |-> 0, tp |-> <<>>],
  (* 340 *) [k |-> "struct", ty |-> "Rt05", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Rt05", f |-> <<[n |-> "kids", sh |-> 124, key |-> <<107, 105, 100, 115>>, dn |-> <<107, 105, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "T", sh |-> 6, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 339, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 16, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "v", sh |-> 6, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "left_over", sh |-> 129, key |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, dn |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "zz", sh |-> 6, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "id", sh |-> 127, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 10, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "tag", sh |-> 6, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "len", sh |-> 333, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "value", sh |-> 3, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 116, 48, 53>>, sz |-> 0, tp |-> <<>>],
  (* 341 *) [k |-> "struct", ty |-> "Ru00", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Ru00", f |-> <<[n |-> "i", sh |-> 6, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 143, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 117, 48, 48>>, sz |-> 0, tp |-> <<>>],
  (* 342 *) [k |-> "struct", ty |-> "Ru01", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Ru01", f |-> <<[n |-> "value", sh |-> 11, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_q", sh |-> 11, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 117, 48, 49>>, sz |-> 0, tp |-> <<>>],
  (* 343 *) [k |-> "struct", ty |-> "Ru02", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Ru02", f |-> <<[n |-> "ünï", sh |-> 11, key |-> <<252, 110, 239>>, dn |-> <<252, 110, 239>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 6, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 117, 48, 50>>, sz |-> 0, tp |-> <<>>],
  (* 344 *) [k |-> "struct", ty |-> "Ru03", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Ru03", f |-> <<[n |-> "is_on", sh |-> 143, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "key", sh |-> 11, key |-> <<107, 101, 121>>, dn |-> <<107, 101, 121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "name", sh |-> 11, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "data", sh |-> 6, key |-> <<100, 97, 116, 97>>, dn |-> <<100, 97, 116, 97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_q", sh |-> 341, key |-> <<95, 113>>, dn |-> <<95, 113>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97, 98, 111, 117, 116, 32, 105, 116>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "i", sh |-> 140, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "kids", sh |-> 342, key |-> <<107, 105, 100, 115>>, dn |-> <<107, 105, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 97, 98, 111, 117, 116, 32, 105, 116>>, <<32, 116, 119, 105, 99, 101>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "left_over", sh |-> 11, key |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, dn |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<<<32, 34, 113, 117, 111, 116, 101, 100, 34>>>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 140, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 117, 48, 51>>, sz |-> 0, tp |-> <<>>],
  (* 345 *) [k |-> "struct", ty |-> "Ra00", traits |-> {"Debug"}, sk |-> "struct", name |-> "Ra00", f |-> <<[n |-> "tag", sh |-> 2, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "i", sh |-> 17, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "id", sh |-> 5, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "data", sh |-> 8, key |-> <<100, 97, 116, 97>>, dn |-> <<100, 97, 116, 97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 97, 48, 48>>, sz |-> 0, tp |-> <<>>],
  (* 346 *) [k |-> "struct", ty |-> "Ra01", traits |-> {"Debug"}, sk |-> "struct", name |-> "Ra01", f |-> <<[n |-> "b", sh |-> 4, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "T", sh |-> 2, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 8, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "is_on", sh |-> 6, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "tag", sh |-> 4, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "zz", sh |-> 8, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "value", sh |-> 2, key |-> <<118, 97, 108, 117, 101>>, dn |-> <<118, 97, 108, 117, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 97, 48, 49>>, sz |-> 0, tp |-> <<>>],
  (* 347 *) [k |-> "struct", ty |-> "Ra02", traits |-> {"Debug"}, sk |-> "struct", name |-> "Ra02", f |-> <<[n |-> "i", sh |-> 6, key |-> <<105>>, dn |-> <<105>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 6, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "Kind", sh |-> 4, key |-> <<75, 105, 110, 100>>, dn |-> <<75, 105, 110, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "a", sh |-> 2, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "tag", sh |-> 8, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "key", sh |-> 2, key |-> <<107, 101, 121>>, dn |-> <<107, 101, 121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "T", sh |-> 2, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 97, 48, 50>>, sz |-> 0, tp |-> <<>>],
  (* 348 *) [k |-> "struct", ty |-> "Ra03", traits |-> {"Debug"}, sk |-> "struct", name |-> "Ra03", f |-> <<[n |-> "name", sh |-> 6, key |-> <<110, 97, 109, 101>>, dn |-> <<110, 97, 109, 101>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "with_a_rather_long_name_of_many_words", sh |-> 13, key |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, dn |-> <<119, 105, 116, 104, 95, 97, 95, 114, 97, 116, 104, 101, 114, 95, 108, 111, 110, 103, 95, 110, 97, 109, 101, 95, 111, 102, 95, 109, 97, 110, 121, 95, 119, 111, 114, 100, 115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "left_over", sh |-> 2, key |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, dn |-> <<108, 101, 102, 116, 95, 111, 118, 101, 114>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "zz", sh |-> 5, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "id", sh |-> 13, key |-> <<105, 100>>, dn |-> <<105, 100>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "len", sh |-> 2, key |-> <<108, 101, 110>>, dn |-> <<108, 101, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "is_on", sh |-> 13, key |-> <<105, 115, 95, 111, 110>>, dn |-> <<105, 115, 95, 111, 110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 97, 48, 51>>, sz |-> 0, tp |-> <<>>],
  (* 349 *) [k |-> "struct", ty |-> "Ra04", traits |-> {"Debug"}, sk |-> "struct", name |-> "Ra04", f |-> <<[n |-> "zz", sh |-> 8, key |-> <<122, 122>>, dn |-> <<122, 122>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "T", sh |-> 2, key |-> <<84>>, dn |-> <<84>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<110, 97, 109, 101, 100>>>>, pos |-> FALSE, long |-> TRUE, short |-> ""], [n |-> "n", sh |-> 6, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""], [n |-> "tag", sh |-> 8, key |-> <<116, 97, 103>>, dn |-> <<116, 97, 103>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<<<112, 111, 115, 105, 116, 105, 111, 110, 97, 108>>>>, pos |-> TRUE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<82, 97, 48, 52>>, sz |-> 0, tp |-> <<>>],
  (* 350 *) [k |-> "list", ty |-> "Vec<En>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 39, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 69, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 39]>>],
  (* 351 *) [k |-> "list", ty |-> "Vec<Option<Tk>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 35, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 112, 116, 105, 111, 110, 60, 84, 107, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 35]>>],
  (* 352 *) [k |-> "option", ty |-> "Option<En>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 39, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 69, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 39]>>],
  (* 353 *) [k |-> "map", ty |-> "HashMap<u8,Vec<Tk>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 8, vt |-> 36, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 86, 101, 99, 60, 84, 107, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 36], [n |-> "S", sh |-> 0]>>],
  (* 354 *) [k |-> "map", ty |-> "HashMap<KeyS,Tk>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 48, vt |-> 7, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 75, 101, 121, 83, 44, 32, 84, 107, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 48], [n |-> "V", sh |-> 7], [n |-> "S", sh |-> 0]>>],
  (* 355 *) [k |-> "map", ty |-> "BTreeMap<u8,Tk>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, kt |-> 8, vt |-> 7, mk |-> "BTreeMap", doc |-> <<>>, tn |-> <<66, 84, 114, 101, 101, 77, 97, 112, 60, 117, 56, 44, 32, 84, 107, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 7]>>],
  (* 356 *) [k |-> "map", ty |-> "BTreeMap<String,P2>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, kt |-> 6, vt |-> 30, mk |-> "BTreeMap", doc |-> <<>>, tn |-> <<66, 84, 114, 101, 101, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 80, 50, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 30]>>],
  (* 357 *) [k |-> "map", ty |-> "HashMap<u8,Option<Tk>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 8, vt |-> 35, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 79, 112, 116, 105, 111, 110, 60, 84, 107, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 35], [n |-> "S", sh |-> 0]>>],
  (* 358 *) [k |-> "map", ty |-> "HashMap<u8,En>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, kt |-> 8, vt |-> 39, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 69, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 39], [n |-> "S", sh |-> 0]>>],
  (* 359 *) [k |-> "struct", ty |-> "Gen<Tk>", traits |-> {}, sk |-> "struct", name |-> "Gen", f |-> <<[n |-> "v", sh |-> 7, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 36, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 101, 110>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 7]>>],
  (* 360 *) [k |-> "struct", ty |-> "Gen<u8>", traits |-> {}, sk |-> "struct", name |-> "Gen", f |-> <<[n |-> "v", sh |-> 8, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 63, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 101, 110>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 361 *) [k |-> "list", ty |-> "Vec<HashMap<u8,Tk>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, t |-> 303, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 84, 107, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 303]>>],
  (* 362 *) [k |-> "list", ty |-> "Vec<HasInv>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 65, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 72, 97, 115, 73, 110, 118, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 65]>>],
  (* 363 *) [k |-> "list", ty |-> "Vec<Option<i64>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 364, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 112, 116, 105, 111, 110, 60, 105, 54, 52, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 364]>>],
  (* 364 *) [k |-> "option", ty |-> "Option<i64>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 17, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 105, 54, 52, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 17]>>],
  (* 365 *) [k |-> "list", ty |-> "Vec<f64>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd"}, t |-> 4, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 102, 54, 52, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 4]>>],
  (* 366 *) [k |-> "map", ty |-> "HashMap<String,String>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 6, vt |-> 6, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 83, 116, 114, 105, 110, 103, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 6], [n |-> "S", sh |-> 0]>>],
  (* 367 *) [k |-> "map", ty |-> "BTreeMap<u8,Vec<u8>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, kt |-> 8, vt |-> 63, mk |-> "BTreeMap", doc |-> <<>>, tn |-> <<66, 84, 114, 101, 101, 77, 97, 112, 60, 117, 56, 44, 32, 86, 101, 99, 60, 117, 56, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 63]>>],
  (* 368 *) [k |-> "map", ty |-> "HashMap<bool,i8>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 2, vt |-> 14, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 98, 111, 111, 108, 44, 32, 105, 56, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 2], [n |-> "V", sh |-> 14], [n |-> "S", sh |-> 0]>>],
  (* 369 *) [k |-> "map", ty |-> "BTreeMap<char,u8>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, kt |-> 5, vt |-> 8, mk |-> "BTreeMap", doc |-> <<>>, tn |-> <<66, 84, 114, 101, 101, 77, 97, 112, 60, 99, 104, 97, 114, 44, 32, 117, 56, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 5], [n |-> "V", sh |-> 8]>>],
  (* 370 *) [k |-> "list", ty |-> "Vec<bool>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 2, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 98, 111, 111, 108, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 2]>>],
  (* 371 *) [k |-> "option", ty |-> "Option<Vec<Option<bool>>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 372, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 86, 101, 99, 60, 79, 112, 116, 105, 111, 110, 60, 98, 111, 111, 108, 62, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 372]>>],
  (* 372 *) [k |-> "list", ty |-> "Vec<Option<bool>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 104, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 112, 116, 105, 111, 110, 60, 98, 111, 111, 108, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 104]>>],
  (* 373 *) [k |-> "list", ty |-> "Vec<Flat>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 94, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 70, 108, 97, 116, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 94]>>],
  (* 374 *) [k |-> "list", ty |-> "Vec<Person>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 74, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 80, 101, 114, 115, 111, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 74]>>],
  (* 375 *) [k |-> "map", ty |-> "HashMap<String,Shp>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, kt |-> 6, vt |-> 103, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 83, 104, 112, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 103], [n |-> "S", sh |-> 0]>>],
  (* 376 *) [k |-> "option", ty |-> "Option<SecE>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 155, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 83, 101, 99, 69, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 155]>>],
  (* 377 *) [k |-> "struct", ty |-> "(Sec,SecE)", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "tuple", name |-> "(Sec,SecE)", f |-> <<[n |-> "0", sh |-> 151, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 155, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 83, 101, 99, 44, 32, 83, 101, 99, 69, 41>>, sz |-> 0, tp |-> <<>>],
  (* 378 *) [k |-> "list", ty |-> "Vec<SecN>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 157, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 83, 101, 99, 78, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 157]>>],
  (* 379 *) [k |-> "list", ty |-> "Vec<Option<Sec>>", traits |-> {"Clone", "Debug", "Default", "PartialEq"}, t |-> 154, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 112, 116, 105, 111, 110, 60, 83, 101, 99, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 154]>>],
  (* 380 *) [k |-> "array", ty |-> "[SecE;2]", traits |-> {"Clone", "Debug", "PartialEq"}, t |-> 155, n |-> 2, doc |-> <<>>, tn |-> <<91, 83, 101, 99, 69, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 155]>>],
  (* 381 *) [k |-> "arc", ty |-> "Arc<Sec>", traits |-> {"Clone"}, t |-> 151, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 151]>>],
  (* 382 *) [k |-> "struct", ty |-> "Gb<u8>", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Gb", f |-> <<[n |-> "v", sh |-> 8, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 63, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 98, 111, 117, 110, 100, 115>>>>, tn |-> <<71, 98>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 383 *) [k |-> "struct", ty |-> "Gb<String>", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Gb", f |-> <<[n |-> "v", sh |-> 6, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 76, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 98, 111, 117, 110, 100, 115>>>>, tn |-> <<71, 98>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 6]>>],
  (* 384 *) [k |-> "struct", ty |-> "Gb<EvEn>", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Gb", f |-> <<[n |-> "v", sh |-> 207, key |-> <<118>>, dn |-> <<118>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "w", sh |-> 385, key |-> <<119>>, dn |-> <<119>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<<<32, 98, 111, 117, 110, 100, 115>>>>, tn |-> <<71, 98>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 207]>>],
  (* 385 *) [k |-> "list", ty |-> "Vec<EvEn>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 207, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 69, 118, 69, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 207]>>],
  (* 386 *) [k |-> "struct", ty |-> "Gw<u8,String>", traits |-> {"Clone", "Debug"}, sk |-> "struct", name |-> "Gw", f |-> <<[n |-> "a", sh |-> 8, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 75, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 119>>, sz |-> 0, tp |-> <<[n |-> "A", sh |-> 8], [n |-> "B", sh |-> 6]>>],
  (* 387 *) [k |-> "struct", ty |-> "Gw<Tk,Vec<u8>>", traits |-> {"Clone", "Debug"}, sk |-> "struct", name |-> "Gw", f |-> <<[n |-> "a", sh |-> 7, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 173, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 119>>, sz |-> 0, tp |-> <<[n |-> "A", sh |-> 7], [n |-> "B", sh |-> 63]>>],
  (* 388 *) [k |-> "struct", ty |-> "Gc<u8,3>", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Gc", f |-> <<[n |-> "a", sh |-> 175, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 8, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 389 *) [k |-> "struct", ty |-> "Gc<char,0>", traits |-> {"Clone", "Debug", "PartialEq"}, sk |-> "struct", name |-> "Gc", f |-> <<[n |-> "a", sh |-> 390, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "n", sh |-> 8, key |-> <<110>>, dn |-> <<110>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 5]>>],
  (* 390 *) [k |-> "array", ty |-> "[char;0]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 5, n |-> 0, doc |-> <<>>, tn |-> <<91, 99, 104, 97, 114, 59, 32, 48, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 5]>>],
  (* 391 *) [k |-> "struct", ty |-> "Lt<'static>", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "Hash"}, sk |-> "struct", name |-> "Lt", f |-> <<[n |-> "a", sh |-> 190, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 191, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "c", sh |-> 8, key |-> <<99>>, dn |-> <<99>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 116>>, sz |-> 0, tp |-> <<>>],
  (* 392 *) [k |-> "struct", ty |-> "Lt2<'static,'static,u8>", traits |-> {"Debug"}, sk |-> "struct", name |-> "Lt2", f |-> <<[n |-> "a", sh |-> 288, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 192, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 116, 50>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 393 *) [k |-> "struct", ty |-> "Lt2<'static,'static,String>", traits |-> {"Debug"}, sk |-> "struct", name |-> "Lt2", f |-> <<[n |-> "a", sh |-> 394, key |-> <<97>>, dn |-> <<97>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "b", sh |-> 192, key |-> <<98>>, dn |-> <<98>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<76, 116, 50>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 6]>>],
  (* 394 *) [k |-> "slice", ty |-> "Slice<String>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 6, doc |-> <<>>, tn |-> <<38, 91, 83, 116, 114, 105, 110, 103, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 6]>>],
  (* 395 *) [k |-> "struct", ty |-> "Gt<u32>", traits |-> {"Debug"}, sk |-> "tuplestruct", name |-> "Gt", f |-> <<[n |-> "0", sh |-> 10, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 116>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 10]>>],
  (* 396 *) [k |-> "enum", ty |-> "Ge<u8,String>", traits |-> {"Clone", "Debug"}, repr |-> "u8", name |-> "Ge", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 8, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 6, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 63, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 6, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "unit", disc |-> <<2>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 101>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8], [n |-> "U2", sh |-> 6]>>],
  (* 397 *) [k |-> "enum", ty |-> "Ge<Tk,Tk>", traits |-> {"Clone", "Debug"}, repr |-> "u8", name |-> "Ge", vs |-> <<[n |-> "A", key |-> <<65>>, kind |-> "tuple", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "_0", sh |-> 7, key |-> <<95, 48>>, dn |-> <<95, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "_1", sh |-> 7, key |-> <<95, 49>>, dn |-> <<95, 49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "B", key |-> <<66>>, kind |-> "struct", disc |-> <<1>>, doc |-> <<>>, f |-> <<[n |-> "x", sh |-> 36, key |-> <<120>>, dn |-> <<120>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "y", sh |-> 7, key |-> <<121>>, dn |-> <<121>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "C", key |-> <<67>>, kind |-> "unit", disc |-> <<2>>, doc |-> <<>>, f |-> <<>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 101>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 7], [n |-> "U2", sh |-> 7]>>],
  (* 398 *) [k |-> "enum", ty |-> "Ge2<'static,u8>", traits |-> {"Debug", "PartialEq"}, repr |-> "u16", name |-> "Ge2", vs |-> <<[n |-> "L", key |-> <<76>>, kind |-> "struct", disc |-> <<0>>, doc |-> <<>>, f |-> <<[n |-> "l", sh |-> 190, key |-> <<108>>, dn |-> <<108>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "o", sh |-> 80, key |-> <<111>>, dn |-> <<111>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>], [n |-> "R", key |-> <<82>>, kind |-> "struct", disc |-> <<9>>, doc |-> <<>>, f |-> <<[n |-> "s", sh |-> 190, key |-> <<115>>, dn |-> <<115>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "t", sh |-> 8, key |-> <<116>>, dn |-> <<116>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>]>>, clay |-> FALSE, transparent |-> FALSE, al |-> 1, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<71, 101, 50>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 399 *) [k |-> "slice", ty |-> "Slice<Slice<u8>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 288, doc |-> <<>>, tn |-> <<38, 91, 38, 91, 117, 56, 93, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 288]>>],
  (* 400 *) [k |-> "slice", ty |-> "Slice<f32>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd", "Copy"}, t |-> 3, doc |-> <<>>, tn |-> <<38, 91, 102, 51, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 3]>>],
  (* 401 *) [k |-> "list", ty |-> "Vec<Every>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 197, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 69, 118, 101, 114, 121, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 197]>>],
  (* 402 *) [k |-> "option", ty |-> "Option<Every>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 197, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 69, 118, 101, 114, 121, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 197]>>],
  (* 403 *) [k |-> "array", ty |-> "[Every;2]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 197, n |-> 2, doc |-> <<>>, tn |-> <<91, 69, 118, 101, 114, 121, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 197]>>],
  (* 404 *) [k |-> "struct", ty |-> "(Every,EvFl)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd"}, sk |-> "tuple", name |-> "(Every,EvFl)", f |-> <<[n |-> "0", sh |-> 197, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 202, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 69, 118, 101, 114, 121, 44, 32, 69, 118, 70, 108, 41>>, sz |-> 0, tp |-> <<>>],
  (* 405 *) [k |-> "arc", ty |-> "Arc<Every>", traits |-> {"Clone"}, t |-> 197, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 197]>>],
  (* 406 *) [k |-> "map", ty |-> "HashMap<String,Every>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 6, vt |-> 197, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 69, 118, 101, 114, 121, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 197], [n |-> "S", sh |-> 0]>>],
  (* 407 *) [k |-> "map", ty |-> "BTreeMap<Cp,EvFl>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd"}, kt |-> 211, vt |-> 202, mk |-> "BTreeMap", doc |-> <<>>, tn |-> <<66, 84, 114, 101, 101, 77, 97, 112, 60, 67, 112, 44, 32, 69, 118, 70, 108, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 211], [n |-> "V", sh |-> 202]>>],
  (* 408 *) [k |-> "list", ty |-> "Vec<EvFl>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd"}, t |-> 202, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 69, 118, 70, 108, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 202]>>],
  (* 409 *) [k |-> "option", ty |-> "Option<EvFl>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd"}, t |-> 202, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 69, 118, 70, 108, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 202]>>],
  (* 410 *) [k |-> "array", ty |-> "[f64;3]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd", "Copy"}, t |-> 4, n |-> 3, doc |-> <<>>, tn |-> <<91, 102, 54, 52, 59, 32, 51, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 4]>>],
  (* 411 *) [k |-> "struct", ty |-> "(f64,f32)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd", "Copy"}, sk |-> "tuple", name |-> "(f64,f32)", f |-> <<[n |-> "0", sh |-> 4, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 3, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 102, 54, 52, 44, 32, 102, 51, 50, 41>>, sz |-> 0, tp |-> <<>>],
  (* 412 *) [k |-> "option", ty |-> "Option<EvEn>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 207, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 69, 118, 69, 110, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 207]>>],
  (* 413 *) [k |-> "list", ty |-> "Vec<char>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 5, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 99, 104, 97, 114, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 5]>>],
  (* 414 *) [k |-> "map", ty |-> "BTreeMap<String,Option<u8>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, kt |-> 6, vt |-> 80, mk |-> "BTreeMap", doc |-> <<>>, tn |-> <<66, 84, 114, 101, 101, 77, 97, 112, 60, 83, 116, 114, 105, 110, 103, 44, 32, 79, 112, 116, 105, 111, 110, 60, 117, 56, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 6], [n |-> "V", sh |-> 80]>>],
  (* 415 *) [k |-> "map", ty |-> "HashMap<IpAddr,u8>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 185, vt |-> 8, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 73, 112, 65, 100, 100, 114, 44, 32, 117, 56, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 185], [n |-> "V", sh |-> 8], [n |-> "S", sh |-> 0]>>],
  (* 416 *) [k |-> "list", ty |-> "Vec<Option<Vec<u8>>>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 173, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 112, 116, 105, 111, 110, 60, 86, 101, 99, 60, 117, 56, 62, 62, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 173]>>],
  (* 417 *) [k |-> "array", ty |-> "[u8;0]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 8, n |-> 0, doc |-> <<>>, tn |-> <<91, 117, 56, 59, 32, 48, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 418 *) [k |-> "array", ty |-> "[String;1]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 6, n |-> 1, doc |-> <<>>, tn |-> <<91, 83, 116, 114, 105, 110, 103, 59, 32, 49, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 6]>>],
  (* 419 *) [k |-> "array", ty |-> "[NoTr;2]", traits |-> {}, t |-> 55, n |-> 2, doc |-> <<>>, tn |-> <<91, 78, 111, 84, 114, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 55]>>],
  (* 420 *) [k |-> "struct", ty |-> "(NoTr,u8)", traits |-> {}, sk |-> "tuple", name |-> "(NoTr,u8)", f |-> <<[n |-> "0", sh |-> 55, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 78, 111, 84, 114, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 421 *) [k |-> "struct", ty |-> "(OneClone,)", traits |-> {"Clone"}, sk |-> "tuple", name |-> "(OneClone,)", f |-> <<[n |-> "0", sh |-> 215, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 79, 110, 101, 67, 108, 111, 110, 101, 44, 41>>, sz |-> 0, tp |-> <<>>],
  (* 422 *) [k |-> "arc", ty |-> "Arc<NoTr>", traits |-> {"Clone"}, t |-> 55, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 55]>>],
  (* 423 *) [k |-> "arc", ty |-> "Arc<Arc<u8>>", traits |-> {"Clone"}, t |-> 424, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 424]>>],
  (* 424 *) [k |-> "arc", ty |-> "Arc<u8>", traits |-> {"Clone"}, t |-> 8, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 425 *) [k |-> "list", ty |-> "Vec<Arc<String>>", traits |-> {"Clone", "Default"}, t |-> 426, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 65, 114, 99, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 426]>>],
  (* 426 *) [k |-> "arc", ty |-> "Arc<String>", traits |-> {"Clone"}, t |-> 6, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 6]>>],
  (* 427 *) [k |-> "weak", ty |-> "Weak<u8>", traits |-> {"Clone", "Debug", "Default"}, t |-> 8, doc |-> <<>>, tn |-> <<87, 101, 97, 107>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 8]>>],
  (* 428 *) [k |-> "map", ty |-> "HashMap<u8,u8,Hs>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq"}, kt |-> 8, vt |-> 8, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 117, 56, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 8], [n |-> "S", sh |-> 0]>>],
  (* 429 *) [k |-> "map", ty |-> "HashMap<u8,NoTr>", traits |-> {"Default"}, kt |-> 8, vt |-> 55, mk |-> "HashMap", doc |-> <<>>, tn |-> <<72, 97, 115, 104, 77, 97, 112, 60, 117, 56, 44, 32, 78, 111, 84, 114, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 55], [n |-> "S", sh |-> 0]>>],
  (* 430 *) [k |-> "map", ty |-> "BTreeMap<u8,OneDebug>", traits |-> {"Debug", "Default"}, kt |-> 8, vt |-> 216, mk |-> "BTreeMap", doc |-> <<>>, tn |-> <<66, 84, 114, 101, 101, 77, 97, 112, 60, 117, 56, 44, 32, 79, 110, 101, 68, 101, 98, 117, 103, 62>>, sz |-> 0, tp |-> <<[n |-> "K", sh |-> 8], [n |-> "V", sh |-> 216]>>],
  (* 431 *) [k |-> "option", ty |-> "Option<OnePo>", traits |-> {"Default", "PartialEq", "PartialOrd"}, t |-> 220, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 79, 110, 101, 80, 111, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 220]>>],
  (* 432 *) [k |-> "list", ty |-> "Vec<OneEq>", traits |-> {"Default", "PartialEq", "Eq"}, t |-> 219, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 110, 101, 69, 113, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 219]>>],
  (* 433 *) [k |-> "list", ty |-> "Vec<OneHash>", traits |-> {"Default", "Hash"}, t |-> 221, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 79, 110, 101, 72, 97, 115, 104, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 221]>>],
  (* 434 *) [k |-> "option", ty |-> "Option<OneHash>", traits |-> {"Default", "Hash"}, t |-> 221, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 79, 110, 101, 72, 97, 115, 104, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 221]>>],
  (* 435 *) [k |-> "list", ty |-> "Vec<Disp>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 210, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 68, 105, 115, 112, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 210]>>],
  (* 436 *) [k |-> "option", ty |-> "Option<Disp>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 210, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 68, 105, 115, 112, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 210]>>],
  (* 437 *) [k |-> "array", ty |-> "[Disp;2]", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 210, n |-> 2, doc |-> <<>>, tn |-> <<91, 68, 105, 115, 112, 59, 32, 50, 93>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 210]>>],
  (* 438 *) [k |-> "struct", ty |-> "(Disp,Disp)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, sk |-> "tuple", name |-> "(Disp,Disp)", f |-> <<[n |-> "0", sh |-> 210, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 210, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 68, 105, 115, 112, 44, 32, 68, 105, 115, 112, 41>>, sz |-> 0, tp |-> <<>>],
  (* 439 *) [k |-> "option", ty |-> "Option<Arc<Disp>>", traits |-> {"Clone", "Default"}, t |-> 440, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 65, 114, 99, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 440]>>],
  (* 440 *) [k |-> "arc", ty |-> "Arc<Disp>", traits |-> {"Clone"}, t |-> 210, doc |-> <<>>, tn |-> <<65, 114, 99>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 210]>>],
  (* 441 *) [k |-> "option", ty |-> "Option<(u8,u8)>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, t |-> 442, doc |-> <<>>, tn |-> <<79, 112, 116, 105, 111, 110, 60, 40, 117, 56, 44, 32, 117, 56, 41, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 442]>>],
  (* 442 *) [k |-> "struct", ty |-> "(u8,u8)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,u8)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 443 *) [k |-> "struct", ty |-> "(u8,u8,u8,u8,u8,u8,u8)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,u8,u8,u8,u8,u8,u8)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 8, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "3", sh |-> 8, key |-> <<51>>, dn |-> <<51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "4", sh |-> 8, key |-> <<52>>, dn |-> <<52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "5", sh |-> 8, key |-> <<53>>, dn |-> <<53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "6", sh |-> 8, key |-> <<54>>, dn |-> <<54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 117, 56, 44, 32, 117, 56, 44, 32, 117, 56, 44, 32, 117, 56, 44, 32, 117, 56, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 444 *) [k |-> "struct", ty |-> "(String,u8,Vec<u8>,f32,Option<u8>,char)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "PartialOrd"}, sk |-> "tuple", name |-> "(String,u8,Vec<u8>,f32,Option<u8>,char)", f |-> <<[n |-> "0", sh |-> 6, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 8, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 63, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "3", sh |-> 3, key |-> <<51>>, dn |-> <<51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "4", sh |-> 80, key |-> <<52>>, dn |-> <<52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "5", sh |-> 5, key |-> <<53>>, dn |-> <<53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 83, 116, 114, 105, 110, 103, 44, 32, 117, 56, 44, 32, 86, 101, 99, 60, 117, 56, 62, 44, 32, 102, 51, 50, 44, 32, 79, 112, 116, 105, 111, 110, 60, 117, 56, 62, 44, 32, 99, 104, 97, 114, 41>>, sz |-> 0, tp |-> <<>>],
  (* 445 *) [k |-> "list", ty |-> "Vec<SocketAddr>", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}, t |-> 186, doc |-> <<>>, tn |-> <<86, 101, 99, 60, 83, 111, 99, 107, 101, 116, 65, 100, 100, 114, 62>>, sz |-> 0, tp |-> <<[n |-> "T", sh |-> 186]>>],
  (* 446 *) [k |-> "struct", ty |-> "(u8,u16,u8,u16,u8,u16,u8,u16)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,u16,u8,u16,u8,u16,u8,u16)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 9, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 8, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "3", sh |-> 9, key |-> <<51>>, dn |-> <<51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "4", sh |-> 8, key |-> <<52>>, dn |-> <<52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "5", sh |-> 9, key |-> <<53>>, dn |-> <<53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "6", sh |-> 8, key |-> <<54>>, dn |-> <<54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "7", sh |-> 9, key |-> <<55>>, dn |-> <<55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 41>>, sz |-> 0, tp |-> <<>>],
  (* 447 *) [k |-> "struct", ty |-> "(u8,u16,u8,u16,u8,u16,u8,u16,u8)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,u16,u8,u16,u8,u16,u8,u16,u8)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 9, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 8, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "3", sh |-> 9, key |-> <<51>>, dn |-> <<51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "4", sh |-> 8, key |-> <<52>>, dn |-> <<52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "5", sh |-> 9, key |-> <<53>>, dn |-> <<53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "6", sh |-> 8, key |-> <<54>>, dn |-> <<54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "7", sh |-> 9, key |-> <<55>>, dn |-> <<55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "8", sh |-> 8, key |-> <<56>>, dn |-> <<56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 448 *) [k |-> "struct", ty |-> "(u8,u16,u8,u16,u8,u16,u8,u16,u8,u16)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,u16,u8,u16,u8,u16,u8,u16,u8,u16)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 9, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 8, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "3", sh |-> 9, key |-> <<51>>, dn |-> <<51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "4", sh |-> 8, key |-> <<52>>, dn |-> <<52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "5", sh |-> 9, key |-> <<53>>, dn |-> <<53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "6", sh |-> 8, key |-> <<54>>, dn |-> <<54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "7", sh |-> 9, key |-> <<55>>, dn |-> <<55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "8", sh |-> 8, key |-> <<56>>, dn |-> <<56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "9", sh |-> 9, key |-> <<57>>, dn |-> <<57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 41>>, sz |-> 0, tp |-> <<>>],
  (* 449 *) [k |-> "struct", ty |-> "(u8,u16,u8,u16,u8,u16,u8,u16,u8,u16,u8)", traits |-> {"Clone", "Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, sk |-> "tuple", name |-> "(u8,u16,u8,u16,u8,u16,u8,u16,u8,u16,u8)", f |-> <<[n |-> "0", sh |-> 8, key |-> <<48>>, dn |-> <<48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "1", sh |-> 9, key |-> <<49>>, dn |-> <<49>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "2", sh |-> 8, key |-> <<50>>, dn |-> <<50>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "3", sh |-> 9, key |-> <<51>>, dn |-> <<51>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "4", sh |-> 8, key |-> <<52>>, dn |-> <<52>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "5", sh |-> 9, key |-> <<53>>, dn |-> <<53>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "6", sh |-> 8, key |-> <<54>>, dn |-> <<54>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "7", sh |-> 9, key |-> <<55>>, dn |-> <<55>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "8", sh |-> 8, key |-> <<56>>, dn |-> <<56>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "9", sh |-> 9, key |-> <<57>>, dn |-> <<57>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""], [n |-> "10", sh |-> 8, key |-> <<49, 48>>, dn |-> <<49, 48>>, def |-> "none", sens |-> FALSE, doc |-> <<>>, ren |-> FALSE, arb |-> <<>>, pos |-> FALSE, long |-> FALSE, short |-> ""]>>, arb |-> <<>>, deny |-> FALSE, dflt |-> FALSE, inv |-> <<>>, doc |-> <<>>, tn |-> <<40, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 44, 32, 117, 49, 54, 44, 32, 117, 56, 41>>, sz |-> 0, tp |-> <<>>],
  (* 450 *) [k |-> "scalar", ty |-> "PathRef", traits |-> {"Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Copy"}, s |-> "PathRef", doc |-> <<>>, tn |-> <<80, 97, 116, 104>>, sz |-> 16, tp |-> <<>>]
>>

ShIdx(ty) == CHOOSE i \in DOMAIN Shapes : Shapes[i].ty = ty
=============================================================================
