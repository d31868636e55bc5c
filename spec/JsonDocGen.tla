--------------------------- MODULE JsonDocGen ---------------------------
(* Random JSON texts: a value built from a tape of random numbers, two ways to write it, sometimes damaged. *)
EXTENDS XbDocGen
JD == INSTANCE JsonDoc
CONSTANT Damage
(* pieces of strings: as written and their meaning *)
PC == <<<<<<97>>, <<97>>>>, <<<<66>>, <<66>>>>, <<<<32>>, <<32>>>>, <<<<49>>, <<49>>>>, <<<<47>>, <<47>>>>, <<<<92, 110>>, <<10>>>>, <<<<92, 34>>, <<34>>>>, <<<<92, 92>>, <<92>>>>, <<<<92, 47>>, <<47>>>>, <<<<92, 116>>, <<9>>>>,
        <<<<92, 98>>, <<8>>>>, <<<<92, 102>>, <<12>>>>, <<<<92, 114>>, <<13>>>>, <<<<92, 117, 48, 48, 52, 49>>, <<65>>>>, <<<<92, 117, 48, 48, 101, 57>>, <<195, 169>>>>, <<<<92, 117, 50, 48, 65, 67>>, <<226, 130, 172>>>>,
        <<<<92, 117, 100, 56, 51, 100, 92, 117, 68, 69, 48, 48>>, <<240, 159, 152, 128>>>>, <<<<92, 117, 48, 48, 48, 48>>, <<92, 117, 48, 48, 48, 48>>>>, <<<<92, 117, 100, 56, 48, 48, 122>>, <<92, 117, 100, 56, 48, 48, 122>>>>,
        <<<<92, 117, 68, 67, 48, 48>>, <<92, 117, 68, 67, 48, 48>>>>, <<<<92, 117, 48, 48, 55, 70>>, <<127>>>>, <<<<92, 117, 48, 56, 48, 48>>, <<224, 160, 128>>>>, <<<<92, 117, 48, 55, 70, 70>>, <<223, 191>>>>, <<<<92, 117, 102, 102, 102, 102>>, <<239, 191, 191>>>>,
        <<<<195, 169>>, <<195, 169>>>>, <<<<123>>, <<123>>>>, <<<<44>>, <<44>>>>, <<<<93>>, <<93>>>>, <<<<58>>, <<58>>>>, <<<<92, 117, 48, 48, 50, 50>>, <<34>>>>, <<<<92, 117, 48, 48, 53, 99>>, <<92>>>>>>
RECURSIVE RPieces(_, _, _)
RPieces(k, m, S) == IF m = 0 THEN S ELSE LET p == P(PC, k) IN RPieces(k + 1, m - 1, [r |-> S.r \o p[1], d |-> S.d \o p[2]])
None2 == [r |-> <<>>, d |-> <<>>]
Plain(x) == [r |-> x, d |-> x]
NJ == <<<<97>>, <<97, 115>>, <<105, 116, 101, 109, 115>>, <<117, 115, 101, 114, 76, 105, 115, 116>>, <<76, 105, 115, 116>>, <<120, 76, 105, 115, 116>>, <<115>>, <<98>>, <<105, 100>>, <<97, 32, 98>>, <<>>, <<78, 85, 76, 76>>, <<97, 73, 116, 101, 109>>,
        <<109, 97, 120, 105, 109, 97, 108, 108, 105>>, <<97, 98, 99, 100>>>>
JName(k) == IF R(k) % 9 = 0 THEN RPieces(k + 2, 1 + (R(k + 1) % 3), None2) ELSE Plain(NJ[((R(2) + (R(k + 1) % (1 + (R(1) % 8)))) % Len(NJ)) + 1])
Clean(x) == \A i \in 1..Len(x) : x[i] \notin {34, 92} /\ x[i] # 0
JString(k) == LET q == R(k) % 8 IN
    IF q < 3 THEN LET x == RCanon(TyAt(k + 1), k + 2) IN IF Clean(x) THEN Plain(x) ELSE Plain(<<120>>)
    ELSE IF q = 3 THEN None2
    ELSE IF q = 4 THEN LET x == RText(TyAt(k + 2), k + 3) IN IF Clean(x) THEN Plain(x) ELSE None2
    ELSE RPieces(k + 2, 1 + (R(k + 1) % 6), None2)
JPrim(k) == LET q == R(k) % 8 IN
    IF q = 0 THEN <<116, 114, 117, 101>> ELSE IF q = 1 THEN <<102, 97, 108, 115, 101>> ELSE IF q = 2 THEN <<110, 117, 108, 108>>
    ELSE IF q = 3 THEN P(<<<<49, 101, 53>>, <<49, 69, 43, 50, 48>>, <<45, 48>>, <<45, 48, 46, 53>>, <<49, 46, 53, 101, 45, 51>>, <<48>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>>>, k + 1)
    ELSE LET x == RCanon(P(<<"INT32", "INT64", "INT32_CENTI", "INT32_NANO", "INT32_DECI", "UINT32">>, k + 1), k + 2) IN IF JD!JsonNumber(x) THEN x ELSE <<49, 50>>
(* a value with at most m elements, from place k of the tape on *)
RECURSIVE JVal(_, _, _), JMems(_, _, _, _, _)
JVal(k, m, deep) == LET q == R(k) % 10 IN
    IF m <= 1 \/ q < 2 \/ (deep > 0 /\ q < 4) THEN (IF R(k + 1) % 2 = 0 THEN LET s0 == JString(k + 2) IN [k |-> "s", r |-> s0.r, d |-> s0.d] ELSE [k |-> "p", r |-> JPrim(k + 2)])
    ELSE LET w == 1 + (R(k + 1) % 4)  o == q < 8 IN
         [k |-> IF o THEN "o" ELSE "a", m |-> IF R(k + 2) % 11 = 0 THEN <<>> ELSE JMems(o, k + 3, (m - 1) \div w, w, deep + 1)]
JMems(o, k, each, w, deep) == IF w = 0 THEN <<>>
    ELSE LET v == JVal(k + 12, each, deep) IN <<IF o THEN [n |-> JName(k), v |-> v] ELSE v>> \o JMems(o, k + 29 + (each * 41), each, w - 1, deep)
WP == <<<<>>, <<32>>, <<10>>, <<>>, <<9, 32>>, <<13, 10>>, <<>>, <<32, 32>>>>
WS1 == IF R(5) % 3 = 0 THEN <<<<>>>> ELSE [i \in 1..(1 + (R(5) % 29)) |-> P(WP, 900 + i)]
WS2 == IF R(6) % 2 = 0 THEN <<<<>>>> ELSE [i \in 1..(1 + (R(6) % 31)) |-> P(WP, 1000 + i)]
Lexemes == <<123, 125, 91, 93, 58, 44, 34, 92, 32, 49, 97, 0, 117>>
Broken(x, k) == LET i == 1 + (R(k) % Len(x))  q == R(k + 1) % 4 IN
    IF q = 0 THEN SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
    ELSE IF q = 1 THEN SubSeq(x, 1, i) \o <<P(Lexemes, k + 2)>> \o SubSeq(x, i + 1, Len(x))
    ELSE IF q = 2 THEN SubSeq(x, 1, i)
    ELSE [x EXCEPT ![i] = P(Lexemes, k + 2)]
Shown(x, y) == LET T == JD!Tree(x)  ref == JD!Refused(x)  js == ~ref /\ JD!IsJson(x) IN
    PrintT("HX" \o ToString(<<IF ref THEN 0 ELSE IF js THEN 1 ELSE 2, x, y, IF js THEN [i \in 1..Len(T) |-> <<T[i].d, T[i].n, T[i].t, <<>>>>] ELSE <<>>>>))
JEmit == n' > 0 =>
    LET v == JVal(20, 1 + (R(0) % MaxLen), 0)  x == WS1[1] \o JD!TextV(v, WS1, 2) \o WS1[Len(WS1)]  y == JD!TextV(v, WS2, 2) IN
    /\ Assert(JD!IsJson(x) /\ JD!IsJson(y) /\ JD!Tree(x) = JD!DocOf(v) /\ JD!Words(x) = JD!Words(y), <<"law of JSON", v>>)
    /\ IF Damage THEN Shown(Broken(x, 7), <<>>) ELSE Shown(x, y)
JSpec == Init /\ [][DNext]_<<s, r, n>>
=========================================================================
