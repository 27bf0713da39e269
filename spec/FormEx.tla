------------------------------- MODULE FormEx -------------------------------
(* Forms, exhaustively: every edit of one byte of some short ones, and every sequence of up to Longest tokens. *)
EXTENDS Form, Json
CONSTANTS Docs, Longest
VARIABLES c
Seed(x) ==
  CASE x = "flat" -> [ty |-> "Flat", b |-> <<107, 61, 97, 37, 50, 53, 43, 38, 118, 61, 51, 49>>]                              \* k=a%25+&v=31
    [] x = "twice" -> [ty |-> "Flat", b |-> <<118, 61, 120, 38, 107, 38, 118, 61, 49, 38, 37, 54, 66, 61, 37, 67, 51, 37, 65, 57>>] \* v=x&k&v=1&%6B=%C3%A9
    [] x = "nest" -> [ty |-> "FormU", b |-> <<109, 111, 114, 101, 91, 122, 93, 61, 113, 38, 97, 103, 101, 61, 49, 38, 99, 105, 116, 121, 61, 99>>] \* more[z]=q&age=1&city=c
    [] x = "deep" -> [ty |-> "Form", b |-> <<110, 61, 48, 38, 110, 97, 109, 101, 38, 117, 115, 101, 114, 91, 109, 111, 114, 101, 93, 91, 122, 93, 38, 117, 115, 101, 114, 91, 97, 103, 101, 93, 61, 55,
                                             38, 117, 115, 101, 114, 91, 99, 105, 116, 121, 93, 61, 61>>] \* n=0&name&user[more][z]&user[age]=7&user[city]==
Bytes == 0..127
EditsAt(b, p) ==
  (IF p = 0 THEN {} ELSE {[b EXCEPT ![p] = x] : x \in Bytes} \cup {SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))})
  \cup {SubSeq(b, 1, p) \o <<x>> \o SubSeq(b, p + 1, Len(b)) : x \in Bytes}
  \cup {SubSeq(b, 1, p)}
Tok == << <<107>>, <<118>>, <<61>>, <<38>>, <<53>>, <<37>>, <<43>>, <<91>>, <<93>> >>
Text(s) == FoldLeft(LAMBDA acc, i : acc \o Tok[i], <<>>, s)
Init == c \in UNION {{[k |-> "at", x |-> x, p |-> p] : p \in 0..Len(Seed(x).b)} : x \in Docs} \cup {[k |-> "seq", s |-> <<>>]}
Next == \/ /\ c.k = "at"
           /\ LET sd == Seed(c.x)  sh == ShIdx(sd.ty) IN \E b \in EditsAt(sd.b, c.p) : c' = [k |-> "read", sh |-> sh, b |-> b]
        \/ /\ c.k = "seq" /\ Len(c.s) < Longest
           /\ \E i \in DOMAIN Tok : c' = [c EXCEPT !.s = Append(@, i)]
Emit == CASE c.k = "read" -> PrintT(ToJson(c))
          [] c.k = "seq" -> PrintT(ToJson([k |-> "read", sh |-> ShIdx("Flat"), b |-> Text(c.s)]))
          [] OTHER -> TRUE
=============================================================================
