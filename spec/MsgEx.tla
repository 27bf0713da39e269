-------------------------------- MODULE MsgEx --------------------------------
(* Objects for the reader, exhaustively: every edit of one byte (any value put in its place or before it,
   removed, or cut off there) of some short ones, and every sequence of up to Longest prefixes. *)
EXTENDS MsgPack, Json

CONSTANTS Docs, Longest
VARIABLES c

Seed(x) ==   \* type and object
  CASE x = "small" -> [ty |-> "Flat", b |-> <<130, 161, 107, 162, 195, 169, 161, 118, 205, 1, 2>>]             \* {"k": "é", "v": 258}
    [] x = "nested" -> [ty |-> "MpN", b |-> <<131, 161, 107, 130, 162, 105, 100, 1, 161, 120, 255, 164, 110, 97, 109, 101, 161, 97, 161, 122, 130, 161, 120, 208, 128, 162, 105, 100, 204, 200>>]
    [] x = "edge" -> [ty |-> "i16", b |-> <<209, 255, 127>>]
    [] x = "skip" -> [ty |-> "Flat", b |-> <<131, 161, 120, 147, 199, 1, 5, 9, 129, 192, 203, 1, 2, 3, 4, 5, 6, 7, 8, 196, 1, 0, 161, 118, 7, 161, 107, 160>>]
    [] x = "long" -> [ty |-> "MpX", b |-> <<133, 191, 110, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 1,
         217, 32, 109, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 255,
         161, 107, 128, 161, 119, 131, 161, 48, 1, 161, 49, 160, 161, 50, 208, 128, 162, 195, 169, 194>>]
EditsAt(b, p) ==    \* p: 0 .. Len(b)
  (IF p = 0 THEN {} ELSE {[b EXCEPT ![p] = x] : x \in 0..255} \cup {SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))})
  \cup {SubSeq(b, 1, p) \o <<x>> \o SubSeq(b, p + 1, Len(b)) : x \in 0..255}
  \cup {SubSeq(b, 1, p)}

Tok == <<0, 127, 128, 129, 130, 143, 144, 145, 160, 161, 162, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212,
         213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 255, 107, 118>>
Types == {"Flat", "i8", "u16", "String", "bool", "Mp0"}

Init == c \in UNION {{[k |-> "at", x |-> x, p |-> p] : p \in 0..Len(Seed(x).b)} : x \in Docs} \cup {[k |-> "seq", t |-> t, s |-> <<>>] : t \in Types}
Next == \/ /\ c.k = "at"
           /\ LET sd == Seed(c.x)  sh == ShIdx(sd.ty) IN \E b \in EditsAt(sd.b, c.p) : c' = [k |-> "read", sh |-> sh, b |-> b]
        \/ /\ c.k = "seq" /\ Len(c.s) < Longest
           /\ \E i \in DOMAIN Tok : c' = [c EXCEPT !.s = Append(@, Tok[i])]
Emit == CASE c.k = "read" -> PrintT(ToJson(c))
          [] c.k = "seq" -> PrintT(ToJson([k |-> "read", sh |-> ShIdx(c.t), b |-> c.s]))
          [] OTHER -> TRUE
=============================================================================
