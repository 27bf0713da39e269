------------------------------- MODULE JsonEx -------------------------------
(* Documents for the reader, exhaustively.

   bytes   every edit of one byte (replaced, inserted, removed, or cut off there) of some short documents
   tokens  every sequence of up to Longest tokens *)
EXTENDS JsonDoc, Json

CONSTANTS Mode, Docs,     \* bytes: names of the documents below
          Alphabet,       \* bytes: "some" or "all"
          Types, Longest  \* tokens
VARIABLES c

Seed(x) ==   \* type and document
  CASE x = "Flat" -> [ty |-> "Flat", b |-> <<123, 34, 107, 34, 58, 34, 97, 92, 110, 34, 44, 34, 118, 34, 58, 49, 48, 125>>]   \* {"k":"a\n","v":10}
    [] x = "list" -> [ty |-> "Option<Vec<Option<bool>>>", b |-> <<91, 116, 114, 117, 101, 44, 110, 117, 108, 108, 93>>]        \* [true,null]
    [] x = "float" -> [ty |-> "f64", b |-> <<45, 49, 46, 53, 101, 43, 51>>]                                                    \* -1.5e+3
    [] x = "int" -> [ty |-> "i16", b |-> <<32, 45, 50, 48, 32>>]
    [] x = "text" -> [ty |-> "String", b |-> <<34, 92, 117, 68, 56, 51, 68, 92, 117, 100, 101, 48, 48, 34>>]                    \* "\uD83D\ude00"
    [] x = "utf8" -> [ty |-> "String", b |-> <<34, 226, 130, 172, 240, 144, 141, 136, 34>>]
    [] x = "unknown" -> [ty |-> "Flat", b |-> <<123, 34, 120, 34, 58, 91, 123, 34, 121, 34, 58, 45, 48, 46, 49, 125, 44, 102, 97, 108, 115, 101, 93, 44, 34, 107, 34, 58, 34, 34, 44, 34, 118, 34, 58, 55, 125>>] \* {"x":[{"y":-0.1},false],"k":"","v":7}
Bytes == IF Alphabet = "all" THEN 0..255
         ELSE {0, 8, 9, 10, 11, 12, 13, 27, 31} \cup (32..64) \cup {68, 69, 70, 71, 78, 85} \cup (91..103) \cup {108, 110, 114, 115, 116, 117, 120, 123, 124, 125, 126, 127, 128, 133, 160, 191, 192, 194, 226, 237, 239, 240, 244, 245, 255}
EditsAt(b, p) ==    \* p: 0 .. Len(b)
  (IF p = 0 THEN {} ELSE {[b EXCEPT ![p] = x] : x \in Bytes} \cup {SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))})
  \cup {SubSeq(b, 1, p) \o <<x>> \o SubSeq(b, p + 1, Len(b)) : x \in Bytes}
  \cup {SubSeq(b, 1, p)}

Tok == << <<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<34, 107, 34>>, <<34, 118, 34>>, <<49>>, <<116, 114, 117, 101>>, <<110, 117, 108, 108>> >>
Text(s) == FoldLeft(LAMBDA acc, i : acc \o Tok[i], <<>>, s)

\* a place in a document, or a document
Init == c \in IF Mode = "bytes" THEN UNION {{[k |-> "at", x |-> x, p |-> p] : p \in 0..Len(Seed(x).b)} : x \in Docs}
              ELSE {[k |-> "seq", t |-> t, s |-> <<>>] : t \in Types}
Next == \/ /\ c.k = "at"
           /\ LET sd == Seed(c.x)  sh == ShIdx(sd.ty) IN \E b \in EditsAt(sd.b, c.p) : c' = [k |-> "read", sh |-> sh, b |-> b]
        \/ /\ c.k = "seq" /\ Len(c.s) < Longest
           /\ \E i \in DOMAIN Tok : c' = [c EXCEPT !.s = Append(@, i)]
Emit == CASE c.k = "read" -> PrintT(ToJson(c))
          [] c.k = "seq" -> PrintT(ToJson([k |-> "read", sh |-> ShIdx(c.t), b |-> Text(c.s)]))
          [] OTHER -> TRUE
=============================================================================
