------------------------------ MODULE XbImage ------------------------------
(* Files of the binary format, byte by byte: which ones are sound documents, and what they say.

   The file b is a sequence of bytes; offsets count from 0. An item: name i16, number of attributes i16, number of children
   i32, length i32; attributes: name i16, type u8, reserved u8, value or its offset in the item i32; offsets of children
   relative to the item i32; type of the value u8, the aligned value. The file starts with the item of the whole document;
   its children hold the dictionary of elements, the dictionary of attributes and the payload. Names below zero are reserved.
   What follows behind the document are elements appended later.

   Verdict "good": the file must be accepted and show just what Items says. "bad": it must be refused.
   "any": a count of names or a dictionary stored as a text; nothing is said about that. *)
EXTENDS XbDoc

U8(b, o) == b[o + 1]
I16(b, o) == LET v == b[o + 1] + (256 * b[o + 2]) IN IF v >= 32768 THEN v - 65536 ELSE v
I32(b, o) == (b[o + 1] + (256 * b[o + 2])) + ((65536 * b[o + 3]) + (16777216 * (IF b[o + 4] >= 128 THEN b[o + 4] - 256 ELSE b[o + 4])))
Types == Len(W!TypeNames)
TypeName(c) == W!TypeNames[c + 1]
TypeCode(ty) == (CHOOSE k \in 1..Types : W!TypeNames[k] = ty) - 1
NullNum == -134217728                                          \* a missing number
AlignOf(ty) == IF ty \in {"NULL", "STRING"} THEN 1 ELSE IF ty \in W!IS8 THEN 8 ELSE 4
Up(o, n) == ((o + (n - 1)) \div n) * n

(* ---- values: at p, before e *)
RECURSIVE Zero(_, _, _)
Zero(b, p, e) ==             \* offset of the first zero byte, looked for in blocks
    IF p >= e THEN -1
    ELSE LET q == IF e - p > 48 THEN p + 47 ELSE e - 1 IN
         IF \E i \in p..q : b[i + 1] = 0 THEN CHOOSE i \in p..q : b[i + 1] = 0 /\ \A j \in p..(i - 1) : b[j + 1] # 0 ELSE Zero(b, q + 1, e)
DataOk(b, ty, p, e) ==
    p <= e /\ CASE ty = "NULL" -> TRUE
                [] ty = "STRING" -> Zero(b, p, e) >= 0
                [] ty \in {"VARIANT", "UNKNOWN", "IPv6"} -> FALSE
                [] ty \in W!VARSZ -> e - p >= 4 /\ LET n == I32(b, p) IN n >= 0 /\ n <= (e - p) - 4 /\ (ty = "BLOB_STRING" => n > 0 /\ b[p + 4 + n] = 0)
                [] OTHER -> e - p >= Size(ty)
Raw(b, ty, p) ==
    LET n == CASE ty = "NULL" -> 0 [] ty = "STRING" -> (Zero(b, p, Len(b)) - p) + 1 [] ty \in W!VARSZ -> 4 + I32(b, p) [] OTHER -> Size(ty)
    IN SubSeq(b, p + 1, p + n)

(* ---- items *)
PC(b, x) == I16(b, x + 2)
CC(b, x) == I32(b, x + 4)
LenOf(b, x) == I32(b, x + 8)
Par(x, k) == (x + 12) + (8 * (k - 1))                          \* offset of the k-th attribute
KidAt(b, x, k) == x + I32(b, (x + 12) + ((8 * PC(b, x)) + (4 * (k - 1))))
HeadLen(b, x) == 12 + ((8 * PC(b, x)) + (4 * CC(b, x)))
ParOk(b, x, k, pn) ==
    LET q == Par(x, k)  nm == I16(b, q)  c == U8(b, q + 2)  d == I32(b, q + 4) IN
    /\ nm > -11 /\ nm < pn /\ c < Types
    /\ LET ty == TypeName(c) IN
       ty = "NULL" \/ ty \in W!IS4 \/ (d >= 0 /\ d < LenOf(b, x) /\ (x + d) % AlignOf(ty) = 0 /\ DataOk(b, ty, x + d, x + LenOf(b, x)))
ValAt(b, x) == Up(x + HeadLen(b, x) + 1, AlignOf(TypeName(U8(b, x + HeadLen(b, x)))))
ValOk(b, x) == LET c == U8(b, x + HeadLen(b, x)) IN c < Types /\ DataOk(b, TypeName(c), ValAt(b, x), x + LenOf(b, x))
Appended(b, x) == x > 0 /\ x >= LenOf(b, 0)
(* a child lies in its parent or is complete before it, therefore there are no cycles; appended items have nothing in common with the document *)
KidOk(b, x, k) ==
    LET c == I32(b, (x + 12) + ((8 * PC(b, x)) + (4 * (k - 1)))) IN
    /\ c >= -x /\ c <= (Len(b) - 12) - x /\ (x + c) % 4 = 0
    /\ LET y == x + c IN
       /\ LenOf(b, y) <= (IF y > x THEN (x + LenOf(b, x)) - y ELSE x - y)
       /\ Appended(b, x) => y >= LenOf(b, 0)
ItemOk(b, x, tn, pn) ==
    /\ x >= 0 /\ x % 4 = 0 /\ x + 12 <= Len(b)
    /\ LenOf(b, x) <= Len(b) - x
    /\ I16(b, x) > -11 /\ I16(b, x) < tn
    /\ Appended(b, x) => I16(b, x) # -9
    /\ PC(b, x) >= 0 /\ CC(b, x) >= 0 /\ LenOf(b, x) >= 13 + (8 * PC(b, x)) /\ CC(b, x) <= ((LenOf(b, x) - 13) - (8 * PC(b, x))) \div 4
    /\ \A k \in 1..PC(b, x) : ParOk(b, x, k, pn)
    /\ ValOk(b, x)
    /\ \A k \in 1..CC(b, x) : KidOk(b, x, k)
KidSet(b, x) == {KidAt(b, x, k) : k \in 1..CC(b, x)}
RECURSIVE AllOk(_, _, _, _, _)
AllOk(b, F, Seen, tn, pn) ==
    \/ F = {}
    \/ (\A x \in F : ItemOk(b, x, tn, pn)) /\ AllOk(b, (UNION {KidSet(b, x) : x \in F}) \ (Seen \cup F), Seen \cup F, tn, pn)
KidNamed(b, x, n) == LET S == {k \in 1..CC(b, x) : I16(b, KidAt(b, x, k)) = n} IN IF S = {} THEN -1 ELSE KidAt(b, x, CHOOSE k \in S : \A q \in S : k <= q)

(* ---- dictionaries *)
BadT == [st |-> "bad", n |-> 0, tc |-> 0, at |-> 0]
AnyT == [st |-> "any", n |-> 0, tc |-> 0, at |-> 0]
NumParam(b, x, n) ==          \* [any, v]: the attribute n as a number
    LET S == {k \in 1..PC(b, x) : I16(b, Par(x, k)) = n} IN
    IF S = {} THEN [any |-> FALSE, v |-> NullNum]
    ELSE LET k == CHOOSE k \in S : \A q \in S : k <= q  ty == TypeName(U8(b, Par(x, k) + 2)) IN
         [any |-> ty = "STRING", v |-> IF ty = "INT32" THEN I32(b, Par(x, k) + 4) ELSE NullNum]
Table(b, x) ==
    LET N == NumParam(b, x, -5)  T0 == NumParam(b, x, -7)  tc == IF T0.v = NullNum THEN 0 ELSE T0.v IN
    IF N.any THEN AnyT ELSE IF N.v < 0 THEN BadT ELSE IF N.v = 0 THEN [st |-> "good", n |-> 0, tc |-> 0, at |-> 0]
    ELSE IF T0.any THEN AnyT ELSE IF tc < 0 THEN BadT
    ELSE LET ty == TypeName(U8(b, x + HeadLen(b, x)))  p == ValAt(b, x) IN
         IF ty = "STRING" THEN AnyT ELSE IF ty # "BLOB" THEN BadT
         ELSE LET n == I32(b, p)  r == p + 4 IN                  \* references, types, names
              IF N.v > n \div 4 \/ tc > n - (4 * N.v) THEN BadT
              ELSE LET t0 == r + (4 * N.v)  s0 == t0 + tc  e == r + n IN
                   IF /\ \A k \in 0..(tc - 1) : U8(b, t0 + k) < Types
                      /\ \A k \in 0..(N.v - 1) : LET c == I32(b, r + (4 * k)) IN c >= s0 - x /\ c < e - x /\ Zero(b, x + c, e) >= 0
                   THEN [st |-> "good", n |-> N.v, tc |-> tc, at |-> x] ELSE BadT
Names(b, T) == [k \in 1..T.n |-> LET r == ValAt(b, T.at) + 4  p == T.at + I32(b, r + (4 * (k - 1))) IN SubSeq(b, p + 1, Zero(b, p, Len(b)))]
NameTypes(b, T) == [k \in 1..T.n |-> IF k > T.tc THEN "NULL" ELSE TypeName(U8(b, (ValAt(b, T.at) + 4) + ((4 * T.n) + (k - 1))))]

(* ---- the document *)
Doc0(st) == [st |-> st, t |-> BadT, p |-> BadT, root |-> 0]
Read(b) ==
    IF Len(b) <= 12 THEN Doc0("bad") ELSE IF I16(b, 0) # -2 \/ ~ItemOk(b, 0, 0, 0) THEN Doc0("bad")
    ELSE LET xt == KidNamed(b, 0, -3) IN
    IF xt < 0 THEN Doc0("bad") ELSE IF ~ItemOk(b, xt, 0, 0) THEN Doc0("bad")
    ELSE LET t == Table(b, xt) IN
    IF t.st # "good" THEN Doc0(t.st)
    ELSE LET xp == KidNamed(b, 0, -4) IN
    IF xp < 0 THEN Doc0("bad") ELSE IF ~ItemOk(b, xp, t.n, 0) THEN Doc0("bad")
    ELSE LET p == Table(b, xp) IN
    IF p.st # "good" THEN Doc0(p.st)
    ELSE LET xl == KidNamed(b, 0, -6) IN
    IF ~AllOk(b, {0}, {}, t.n, p.n) THEN Doc0("bad")
    ELSE IF xl < 0 THEN Doc0("bad") ELSE IF CC(b, xl) = 0 THEN Doc0("bad")
    ELSE [st |-> "good", t |-> t, p |-> p, root |-> KidAt(b, xl, 1)]

(* what the reader shows: the items below x in document order *)
ParVal(b, x, k) == LET q == Par(x, k)  ty == TypeName(U8(b, q + 2)) IN
    <<I16(b, q), ty, IF ty = "NULL" THEN <<>> ELSE IF ty \in W!IS4 THEN SubSeq(b, q + 5, q + 8) ELSE Raw(b, ty, x + I32(b, q + 4))>>
Item(b, x, d) == LET ty == TypeName(U8(b, x + HeadLen(b, x))) IN
    [o |-> x, d |-> d, id |-> I16(b, x), len |-> LenOf(b, x), k |-> CC(b, x), t |-> ty, r |-> Raw(b, ty, ValAt(b, x)), a |-> [k \in 1..PC(b, x) |-> ParVal(b, x, k)]]
RECURSIVE Items(_, _, _), ItemsL(_, _, _, _)
Items(b, x, d) == <<Item(b, x, d)>> \o ItemsL(b, x, d + 1, 1)
ItemsL(b, x, d, k) == IF k > CC(b, x) THEN <<>> ELSE Items(b, KidAt(b, x, k), d) \o ItemsL(b, x, d, k + 1)

(* appended elements: the complete ones behind the document; they stand in the place of the child et-tecera (-9) *)
RECURSIVE Extra(_, _, _, _)
Extra(b, o, tn, pn) ==
    LET x == Up(o, 4) IN
    IF x > Len(b) - 12 THEN <<>> ELSE IF ~AllOk(b, {x}, {}, tn, pn) THEN <<>>
    ELSE <<x>> \o Extra(b, x + LenOf(b, x), tn, pn)
RECURSIVE Walk(_, _, _, _), WalkL(_, _, _, _, _)
Walk(b, x, d, X) == <<<<x, d>>>> \o WalkL(b, x, d + 1, 1, X)
WalkL(b, x, d, k, X) ==
    IF k > CC(b, x) THEN <<>>
    ELSE LET y == KidAt(b, x, k) IN
         IF I16(b, y) = -9 THEN LET RECURSIVE E(_)  E(j) == IF j > Len(X) THEN <<>> ELSE Walk(b, X[j], d, <<>>) \o E(j + 1) IN E(1)
         ELSE Walk(b, y, d, X) \o WalkL(b, x, d, k + 1, X)

(* ---- writing: D is a sequence of [d depth, n name, v [ty, r], a attributes [n, ty, r]], an item's data precede its children *)
LE(v, n) == LET RECURSIVE F(_, _)  F(x, k) == IF k = 0 THEN <<>> ELSE <<x % 256>> \o F(x \div 256, k - 1) IN F(v, n)
Fill(b, o, n) == b \o [i \in 1..(Up(o + Len(b), n) - (o + Len(b))) |-> 0]
RECURSIVE EncPars(_, _, _, _, _, _), EncKids(_, _, _, _, _, _)
(* b: bytes of the item so far (it starts at x), R: attribute records *)
EncPars(D, i, k, x, b, R) ==
    IF k > Len(D[i].a) THEN [b |-> b, R |-> R]
    ELSE LET a == D[i].a[k]  h == LE(a.n, 2) \o <<TypeCode(a.ty), 0>> IN
         IF a.ty = "NULL" THEN EncPars(D, i, k + 1, x, b, R \o h \o <<0, 0, 0, 0>>)
         ELSE IF a.ty \in W!IS4 THEN EncPars(D, i, k + 1, x, b, R \o h \o a.r)
         ELSE LET c == Fill(b, x, AlignOf(a.ty)) IN EncPars(D, i, k + 1, x, c \o a.r, R \o h \o LE(Len(c), 4))
RECURSIVE Enc(_, _, _)
Enc(D, i, x) ==
    LET K == Kids(D, i)  h == 12 + ((8 * Len(D[i].a)) + (4 * Len(K)))
        v == Fill([j \in 1..h |-> 0] \o <<TypeCode(D[i].v.ty)>>, x, AlignOf(D[i].v.ty)) \o D[i].v.r
        P == EncPars(D, i, 1, x, v, <<>>)
        Q == EncKids(D, K, 1, x, P.b, <<>>)
        hd == LE(D[i].n, 2) \o LE(Len(D[i].a), 2) \o LE(Len(K), 4) \o LE(Len(Q.b), 4) \o P.R \o Q.R
    IN hd \o SubSeq(Q.b, h + 1, Len(Q.b))
EncKids(D, K, k, x, b, R) ==
    IF k > Len(K) THEN [b |-> b, R |-> R]
    ELSE LET c == Fill(b, x, 4) IN EncKids(D, K, k + 1, x, c \o Enc(D, K[k], x + Len(c)), R \o LE(Len(c), 4))
(* a dictionary of names L with types; it is the value of an item with two attributes *)
DictBlob(L, Ty) ==
    LET s0 == 36 + ((4 * Len(L)) + Len(Ty))
        RECURSIVE O(_)  O(k) == IF k = 1 THEN s0 ELSE O(k - 1) + Len(L[k - 1]) + 1
        RECURSIVE Rf(_), Nm(_)
        Rf(k) == IF k > Len(L) THEN <<>> ELSE LE(O(k), 4) \o Rf(k + 1)
        Nm(k) == IF k > Len(L) THEN <<>> ELSE L[k] \o <<0>> \o Nm(k + 1)
        c == Rf(1) \o [k \in 1..Len(Ty) |-> TypeCode(Ty[k])] \o Nm(1)
    IN LE(Len(c), 4) \o c
N4(n, v) == [n |-> n, ty |-> "INT32", r |-> LE(v, 4)]
DictItem(n, L, Ty) == IF L = <<>> THEN [d |-> 1, n |-> n, v |-> [ty |-> "NULL", r |-> <<>>], a |-> <<N4(-5, 0), N4(-7, 0)>>]
                      ELSE [d |-> 1, n |-> n, v |-> [ty |-> "BLOB", r |-> DictBlob(L, Ty)], a |-> <<N4(-5, Len(L)), N4(-7, Len(Ty))>>]
NullV == [ty |-> "NULL", r |-> <<>>]
Whole(TL, TT, PL, PT, D) ==         \* all the items of the document with elements D
    <<[d |-> 0, n |-> -2, v |-> NullV, a |-> <<N4(-6, 256), [n |-> -2, ty |-> "STRING", r |-> <<115, 0>>]>>],
      DictItem(-3, TL, TT), DictItem(-4, PL, PT), [d |-> 1, n |-> -6, v |-> NullV, a |-> <<>>]>> \o [i \in 1..Len(D) |-> [D[i] EXCEPT !.d = @ + 2]]
RECURSIVE EncExtra(_, _, _)
EncExtra(b, X, k) == IF k > Len(X) THEN b ELSE LET c == Fill(b, 0, 4) IN EncExtra(c \o Enc(X[k], 1, Len(c)), X, k + 1)
File(TL, TT, PL, PT, D, X) == EncExtra(Enc(Whole(TL, TT, PL, PT, D), 1, 0), X, 1)
=========================================================================
