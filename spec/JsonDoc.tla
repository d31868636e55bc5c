----------------------------- MODULE JsonDoc -----------------------------
(* What document a JSON text denotes: a function of the tokens (module Jsmn).

   The root value is an element without name. A member of an object is an element with the name of the member, an item
   of an array an element with the name made of the name of the array; strings, numbers and literals are texts.
   A value is also built directly (V below), with its document and all its ways of writing; JsonMC checks that both agree. *)
EXTENDS XbDoc
K == INSTANCE Jsmn
NoName == <<0>>
ItemName == <<95, 95, 65, 82, 82, 65, 89, 95, 73, 84, 69, 77, 95, 78, 65, 77, 69, 95, 95>>     \* __ARRAY_ITEM_NAME__

(* ---- characters of a string *)
Hex4(s, i) == IF i + 3 > Len(s) \/ \E k \in 0..3 : s[i + k] \notin K!Hex THEN -1
              ELSE LET v(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87 IN (((((v(s[i]) * 16) + v(s[i + 1])) * 16) + v(s[i + 2])) * 16) + v(s[i + 3])
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE DecodeR(_, _, _)
DecodeR(s, i, R) ==
    IF i > Len(s) THEN R
    ELSE IF s[i] # 92 \/ i = Len(s) THEN DecodeR(s, i + 1, Append(R, s[i]))
    ELSE LET c == s[i + 1] IN
    IF c # 117 THEN DecodeR(s, i + 2, Append(R, CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c))
    ELSE LET h == Hex4(s, i + 2)
             lo == IF i + 7 <= Len(s) /\ s[i + 6] = 92 /\ s[i + 7] = 117 THEN Hex4(s, i + 8) ELSE -1 IN
         IF h \in 55296..56319 /\ lo \in 56320..57343 THEN DecodeR(s, i + 12, R \o Utf8((65536 + ((h - 55296) * 1024)) + (lo - 56320)))
         ELSE IF h <= 0 \/ h \in 55296..57343 THEN DecodeR(s, i + 1, Append(R, 92))                \* not a character a text can have: as written
         ELSE DecodeR(s, i + 6, R \o Utf8(h))
Decode(s) == DecodeR(s, 1, <<>>)

(* ---- tokens *)
Toks(js) == K!Parse(js, Len(js), K!InitSt, K!Max)
Raw(js, t) == SubSeq(js, t.s + 1, t.e)
Value(t) == t.ty \in {K!STR, K!PRIM}
Key(tk, i) == tk[i].p >= 0 /\ tk[tk[i].p + 1].ty = K!OBJ
Sound(tk) == /\ tk # <<>>
             /\ \A i \in 2..Len(tk) : tk[i].p >= 0
             /\ \A i \in 1..Len(tk) : IF Key(tk, i) THEN Value(tk[i]) /\ tk[i].n = 1 ELSE Value(tk[i]) => tk[i].n = 0
Refused(js) == LET f == Toks(js) IN f.r <= 0 \/ ~Sound(f.st.tk)
(* the tokenizer lets some more texts pass than those that are JSON: nothing is said about them *)
Literals == {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>}
RECURSIVE DigitsTo(_, _)
DigitsTo(p, i) == IF i <= Len(p) /\ p[i] \in 48..57 THEN DigitsTo(p, i + 1) ELSE i
JsonNumber(p) == LET a == IF p # <<>> /\ p[1] = 45 THEN 2 ELSE 1  b == DigitsTo(p, a)
                     c == IF b <= Len(p) /\ p[b] = 46 THEN DigitsTo(p, b + 1) ELSE b
                     e == IF c <= Len(p) /\ p[c] \in {69, 101} THEN (IF c < Len(p) /\ p[c + 1] \in {43, 45} THEN c + 2 ELSE c + 1) ELSE 0
                     z == IF e = 0 THEN c ELSE DigitsTo(p, e) IN
    b > a /\ (b = a + 1 \/ p[a] # 48) /\ c # b + 1 /\ (e # 0 => z > e) /\ z = Len(p) + 1
(* lexemes, and the grammar over them: o { c } b [ d ] s string p primitive : , *)
RECURSIVE Lex1(_, _, _)
Lex1(js, i, R) == IF i > Len(js) THEN R ELSE LET c == js[i] IN
    IF c \in K!White THEN Lex1(js, i + 1, R)
    ELSE IF c \in {123, 125, 91, 93, 58, 44} THEN Lex1(js, i + 1, Append(R, c))
    ELSE IF c = 34 THEN LET q == K!StrEnd(js, Len(js), i) IN IF q < 0 THEN <<0>> ELSE Lex1(js, q + 2, Append(R, 34))
    ELSE LET q == K!PrimEnd(js, Len(js), i - 1) IN IF q < 0 THEN <<0>> ELSE LET w == SubSeq(js, i, q) IN Lex1(js, q + 1, Append(R, IF w \in Literals \/ JsonNumber(w) THEN 49 ELSE 0))
RECURSIVE GVal(_, _), GMem(_, _), GIt(_, _)         \* position behind a value, behind members or items; 0: there is none
At(L, i) == IF i >= 1 /\ i <= Len(L) THEN L[i] ELSE -1
GVal(L, i) == CASE At(L, i) \in {34, 49} -> i + 1
                [] At(L, i) = 123 -> IF At(L, i + 1) = 125 THEN i + 2 ELSE GMem(L, i + 1)
                [] At(L, i) = 91 -> IF At(L, i + 1) = 93 THEN i + 2 ELSE GIt(L, i + 1)
                [] OTHER -> 0
GMem(L, i) == IF At(L, i) # 34 \/ At(L, i + 1) # 58 THEN 0 ELSE LET v == GVal(L, i + 2) IN IF v = 0 THEN 0 ELSE IF At(L, v) = 44 THEN GMem(L, v + 1) ELSE IF At(L, v) = 125 THEN v + 1 ELSE 0
GIt(L, i) == LET v == GVal(L, i) IN IF v = 0 THEN 0 ELSE IF At(L, v) = 44 THEN GIt(L, v + 1) ELSE IF At(L, v) = 93 THEN v + 1 ELSE 0
IsJson(js) == LET L == Lex1(js, 1, <<>>) IN L # <<>> /\ GVal(L, 1) = Len(L) + 1

(* ---- the document *)
Singular(n) == LET m == Len(n) IN
    IF m > 0 /\ n[m] = 115 THEN SubSeq(n, 1, m - 1)
    ELSE IF m > 4 /\ SubSeq(n, m - 3, m) = <<76, 105, 115, 116>> THEN SubSeq(n, 1, m - 4)
    ELSE n \o <<73, 116, 101, 109>>
Name(js, tk, i) ==
    IF tk[i].p = -1 THEN NoName
    ELSE LET P == tk[tk[i].p + 1] IN
         IF P.ty = K!OBJ THEN Decode(Raw(js, tk[i]))
         ELSE IF P.p = -1 THEN NoName
         ELSE IF tk[P.p + 1].ty = K!STR THEN Singular(Decode(Raw(js, tk[P.p + 1]))) ELSE ItemName
Val(tk, i) == IF Key(tk, i) THEN i + 1 ELSE i
TextOf(js, t) == IF t.ty = K!STR THEN Decode(Raw(js, t)) ELSE IF t.ty = K!PRIM THEN Raw(js, t) ELSE <<>>
RECURSIVE TreeR(_, _, _, _, _)
(* elements of the tokens from i on, DP: depth of the element of a token *)
TreeR(js, tk, i, DP, R) ==
    IF i > Len(tk) THEN R
    ELSE LET d == IF tk[i].p = -1 THEN 0 ELSE DP[tk[i].p + 1] + 1
             v == Val(tk, i) IN
         IF Key(tk, i) THEN TreeR(js, tk, i + 2, DP \o <<d, d>>, Append(R, [d |-> d, n |-> Name(js, tk, i), t |-> TextOf(js, tk[v])]))
         ELSE TreeR(js, tk, i + 1, Append(DP, d), Append(R, [d |-> d, n |-> Name(js, tk, i), t |-> TextOf(js, tk[i])]))
Tree(js) == LET f == Toks(js) IN TreeR(js, f.st.tk, 1, <<>>, <<>>)
(* texts that differ only in white space *)
Words(js) == LET f == Toks(js) IN [i \in 1..Len(f.st.tk) |-> <<f.st.tk[i].ty, f.st.tk[i].p, IF Value(f.st.tk[i]) THEN Raw(js, f.st.tk[i]) ELSE <<>>>>]

(* ---- values built directly. [k "o", m seq of [n [r d], v]] [k "a", m seq of values] [k "s", r raw, d decoded] [k "p", r] *)
RECURSIVE DocV(_, _, _, _), DocM(_, _, _, _, _)
DocV(v, nm, item, d) ==       \* nm: its name, item: the name of its items
    <<[d |-> d, n |-> nm, t |-> IF v.k = "s" THEN v.d ELSE IF v.k = "p" THEN v.r ELSE <<>>]>> \o (IF v.k \in {"o", "a"} THEN DocM(v, item, d + 1, 1, <<>>) ELSE <<>>)
DocM(v, item, d, i, R) ==
    IF i > Len(v.m) THEN R
    ELSE DocM(v, item, d, i + 1, R \o (IF v.k = "o" THEN DocV(v.m[i].v, v.m[i].n.d, Singular(v.m[i].n.d), d) ELSE DocV(v.m[i], item, ItemName, d)))
DocOf(v) == DocV(v, NoName, NoName, 0)
(* S: the white spaces between the words, again and again *)
Quote(r) == <<34>> \o r \o <<34>>
WS(S, i) == S[(i % Len(S)) + 1]
RECURSIVE TextV(_, _, _), TextM(_, _, _, _, _)
TextV(v, S, i) ==
    CASE v.k = "s" -> Quote(v.r) [] v.k = "p" -> v.r
      [] v.k = "o" -> <<123>> \o WS(S, i) \o TextM(v, S, i + 1, 1, <<>>) \o <<125>>
      [] OTHER -> <<91>> \o WS(S, i) \o TextM(v, S, i + 1, 1, <<>>) \o <<93>>
TextM(v, S, i, k, R) ==
    IF k > Len(v.m) THEN R
    ELSE LET x == IF v.k = "o" THEN Quote(v.m[k].n.r) \o WS(S, i + 1) \o <<58>> \o WS(S, i + 2) \o TextV(v.m[k].v, S, i + 5) ELSE TextV(v.m[k], S, i + 5) IN
         TextM(v, S, i + 7, k + 1, R \o x \o WS(S, i + 3) \o (IF k < Len(v.m) THEN <<44>> \o WS(S, i + 4) ELSE <<>>))
=========================================================================
