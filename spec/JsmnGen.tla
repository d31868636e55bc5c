----------------------------- MODULE JsmnGen -----------------------------
(* All texts over an alphabet up to a length (as a state graph: a state is a text, a step appends a character), and
   random longer texts made of typical pieces.                                                                     *)
EXTENDS Jsmn, TLC
CONSTANTS Alphabet, MaxLen, Mode, Pieces
VARIABLES text, done
H == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexOf(_)
HexOf(s) == IF s = <<>> THEN "" ELSE H[(Head(s) \div 16) + 1] \o H[(Head(s) % 16) + 1] \o HexOf(Tail(s))
Init == text = <<>> /\ done = FALSE
Next == \/ /\ Mode = "cover" /\ Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c) /\ done' = FALSE
        \/ /\ Mode = "sim" /\ ~done /\ Len(text) < MaxLen /\ text' = text \o RandomElement(Pieces) /\ done' = FALSE
        \/ /\ Mode = "sim" /\ ~done /\ Len(text) >= MaxLen /\ done' = TRUE /\ UNCHANGED text
Spec == Init /\ [][Next]_<<text, done>>
Inv == Mode = "cover" => Laws(text)
Emit == (Mode = "cover" \/ done') => PrintT("HT" \o HexOf(text'))
\* { } [ ] " : , space a \ u 1
A12 == {123, 125, 91, 93, 34, 58, 44, 32, 97, 92, 117, 49}
\* only the brackets and separators: deeper
A7 == {123, 125, 91, 93, 58, 44, 49}
\* strings and escapes
A8 == {34, 92, 117, 48, 70, 103, 97, 10}
\* odd characters
AOdd == {0, 1, 31, 127, 200, 34, 91, 93, 49}
A5 == {123, 125, 91, 93, 34}
P == { <<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<32>>, <<10>>, <<34,97,34>>, <<34,107,34,58>>, <<34,34>>, <<49>>, <<116,114,117,101>>, <<45,49,46,53,101,51>>,
       <<34,92,34,34>>, <<34,92,117,48,48,52,49,34>>, <<123,34,107,34,58,49,125>>, <<91,49,44,50,93>>, <<123,125>>, <<91,93>>, <<34,120,34,44>>, <<34,92,110,34>>, <<92>>, <<34>>, <<110,117,108,108,44>>,
       <<34,97,32,98,34>>, <<34,195,161,34>>, <<58,32,123>>, <<125,44>>, <<93,44>> }
NoP == {<<>>}
NoA == {}
=========================================================================
