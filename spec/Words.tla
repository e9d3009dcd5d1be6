------------------------------- MODULE Words -------------------------------
(* Character classes the undo grouping and word rules depend on. *)
EXTENDS Integers, Sequences
Blank == {" ", "/n", "U+0009", "U+000A", "U+000D", "U+00A0", "U+3000"}
Punct == {".", ",", ";", ":", "!", "?", "(", ")", "[", "]", "{", "}", "\"", "'", "-"}
Boundary(c) == c \in Blank \/ c \in Punct
=============================================================================
