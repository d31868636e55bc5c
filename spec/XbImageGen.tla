---------------------------- MODULE XbImageGen ----------------------------
(* Images: files written by XbImage, whole, cut at any byte, with a byte, 16 or 32 bit number replaced by values at the limits,
   and with several such changes. Laws: an unchanged image is sound and says what was written; all that a sound image says lies
   in it (TLC evaluates no index out of a sequence) and is finite. *)
EXTENDS XbImage, Json, SequencesExt
CONSTANTS Bases, Deep         \* numbers of images; Deep: more values
VARIABLES k, b, cut, p, r    \* image, its bytes, where it is cut (-1: not), changes <<offset, bytes>>, random numbers

a == 97
V(ty, raw) == [ty |-> ty, r |-> raw]
A(n, ty, raw) == [n |-> n, ty |-> ty, r |-> raw]
E(d, n, v, at) == [d |-> d, n |-> n, v |-> v, a |-> at]
Sample(ty) == CASE ty = "STRING" -> <<120, 121, 0>> [] ty \in {"BLOB", "HEX"} -> <<3, 0, 0, 0, 1, 2, 3>> [] ty = "BLOB_STRING" -> <<5, 0, 0, 0, 118, 119, 0, 0, 0>>
                [] ty = "NULL" -> <<>> [] ty \in W!IS4 -> <<7, 1, 0, 0>> [] OTHER -> [i \in 1..Size(ty) |-> 10 + i]
VT == <<"STRING", "BLOB", "INT32", "INT64", "FLOAT", "DOUBLE", "HEX", "GUID", "SHA1", "UNIX_TIME", "IPv4", "UINT64", "UNIX_TIME64_MSEC", "UINT32", "UNIX_DATE",
        "INT32_DECI", "INT32_CENTI", "INT32_MILI", "INT32_MICRO", "INT32_NANO", "BLOB_STRING", "NULL">>
Tn == <<<<a>>, <<a, a>>, <<98>>>>  Pn == <<<<105, 100>>, <<110>>>>
Image(i) ==
    CASE i = 1 -> File(Tn, <<"INT32", "STRING", "NULL">>, Pn, <<"INT32", "STRING">>,
                       <<E(0, 2, NullV, <<>>), E(1, 0, V("INT32", LE(5, 4)), <<A(0, "INT32", LE(1, 4))>>), E(1, 1, V("STRING", Sample("STRING")), <<A(1, "STRING", <<113, 0>>), A(0, "INT64", Sample("INT64"))>>),
                         E(2, 0, NullV, <<>>)>>, <<>>)
      [] i = 2 -> File(Tn, <<>>, <<>>, <<>>, <<E(0, 0, V("BLOB", Sample("BLOB")), <<>>)>>, <<>>)
      [] i = 3 -> File(<<<<a>>, <<98>>>>, <<"NULL">>, Pn, <<"BLOB">>, <<E(0, 1, NullV, <<A(0, "BLOB", Sample("BLOB")), A(1, "NULL", <<>>)>>), E(1, 0, V("DOUBLE", Sample("DOUBLE")), <<>>), E(1, -9, NullV, <<>>)>>,
                       <<<<E(0, 0, V("INT64", Sample("INT64")), <<>>)>>, <<E(0, -10, NullV, <<A(0, "GUID", Sample("GUID"))>>), E(1, 0, V("STRING", <<116, 0>>), <<>>), E(1, 0, NullV, <<>>)>>>>)
      [] OTHER -> LET ty == VT[i - 3] IN
                  File(<<<<a>>, <<98>>>>, <<ty, "STRING">>, <<<<99>>>>, <<ty>>, <<E(0, 0, V(ty, Sample(ty)), <<A(0, ty, Sample(ty))>>), E(1, 1, V(ty, Sample(ty)), <<>>), E(1, 1, NullV, <<A(0, ty, Sample(ty))>>)>>, <<>>)
Images == 3 + Len(VT)

(* ---- changes *)
V8(v) == {0, 1, 2, 3, 13, 14, 16, 24, 25, 26, 127, 128, 255, (v + 1) % 256, (v + 255) % 256} \cup (IF Deep THEN 0..31 ELSE {})
V16(v) == {0, 1, 2, 3, 4, -1, -2, -3, -4, -5, -6, -7, -9, -10, -11, -12, 32767, -32768, 255, 256, 4096} \cup (IF v < 32767 THEN {v + 1} ELSE {}) \cup (IF v > -32768 THEN {v - 1} ELSE {})
Starts(f) == LET I == Items(f, 0, 0) IN {I[j].o : j \in 1..Len(I)}
V32(f, o, v, S) ==
    LET n == Len(f)  L0 == LenOf(f, 0) IN
    {0, 1, 2, 3, 4, 8, 11, 12, 13, 16, -1, -4, -8, -12, 2147483647, 2147483646, -2147483647 - 1, 1073741824, 536870912, 536870911, 268435456, 16777216, -134217728, n, n - 1, n + 1, n - 12, n - 11, -o, n - o, (n - o) - 4, L0, L0 - 4, L0 + 4}
    \cup {v + j : j \in {q \in {-8, -4, -1, 1, 4, 8} : v < 2147483000 /\ v > -2147483000}}
Change8(f, o) == {<<o, <<v>>>> : v \in V8(U8(f, o)) \ {U8(f, o)}}
Change16(f, o) == IF o % 2 = 0 /\ o + 2 <= Len(f) THEN {<<o, LE(v, 2)>> : v \in V16(I16(f, o)) \ {I16(f, o)}} ELSE {}
Change32(f, o, S) == IF o % 4 = 0 /\ o + 4 <= Len(f) THEN {<<o, LE(v, 4)>> : v \in V32(f, o, I32(f, o), S) \ {I32(f, o)}} ELSE {}
(* references between all items: to the children, all their places can become any *)
Refs(f, S) == UNION {{<<((x + 12) + (8 * PC(f, x))) + (4 * (j - 1)), LE(y - x, 4)>> : j \in 1..CC(f, x), y \in S} : x \in S}
(* the images that differ in the type of the values only: changes of these elements will do *)
Changes(f) == LET S == Starts(f)  from == IF k <= 3 \/ Deep THEN 0 ELSE Read(f).root IN
    UNION {Change8(f, o) \cup Change16(f, o) \cup Change32(f, o, S) : o \in from..(Len(f) - 1)} \cup (IF from = 0 THEN Refs(f, S) ELSE {})

Put(f, c) == [i \in 1..Len(f) |-> IF i > c[1] /\ i <= c[1] + Len(c[2]) THEN c[2][i - c[1]] ELSE f[i]]
RECURSIVE PutAll(_, _, _)
PutAll(f, P, j) == IF j > Len(P) THEN f ELSE PutAll(Put(f, P[j]), P, j + 1)
Now == LET f == PutAll(b, p, 1) IN IF cut < 0 THEN f ELSE SubSeq(f, 1, cut)

(* ---- all single changes *)
Init == k \in Bases /\ b = <<>> /\ cut = -1 /\ p = <<>> /\ r = <<>>
Load == b = <<>> /\ b' = Image(k) /\ UNCHANGED <<k, cut, p, r>>
Cut == b # <<>> /\ cut = -1 /\ p = <<>> /\ \E c \in 0..(Len(b) - 1) : cut' = c /\ UNCHANGED <<k, b, p, r>>
Change == b # <<>> /\ cut = -1 /\ p = <<>> /\ \E c \in Changes(b) : p' = <<c>> /\ UNCHANGED <<k, b, cut, r>>
Spec == Init /\ [][Load \/ Cut \/ Change]_<<k, b, cut, p, r>>
Emit == IF b = <<>> THEN PrintT("HB" \o ToString(<<k, b'>>)) ELSE PrintT("HM" \o ToString(<<k, cut', p'>>))

(* ---- random combinations, of the fields where items have them *)
Rnd(i) == r[((i - 1) % Len(r)) + 1]
Pick(L, i) == L[(Rnd(i) % Len(L)) + 1]
SetSeq(S) == SetToSeq(S)
Field(f, x, i) ==       \* <<offset, width>> of a field of the item x
    LET c == Rnd(i) % 8 IN
    CASE c = 0 -> <<x, 2>> [] c = 1 -> <<x + 2, 2>> [] c = 2 -> <<x + 4, 4>> [] c = 3 -> <<x + 8, 4>>
      [] c = 4 /\ PC(f, x) > 0 -> LET q == Par(x, 1 + (Rnd(i + 1) % PC(f, x))) IN (IF Rnd(i + 2) % 3 = 0 THEN <<q, 2>> ELSE IF Rnd(i + 2) % 3 = 1 THEN <<q + 2, 1>> ELSE <<q + 4, 4>>)
      [] c = 5 /\ CC(f, x) > 0 -> <<((x + 12) + (8 * PC(f, x))) + (4 * (Rnd(i + 1) % CC(f, x))), 4>>
      [] c = 6 -> <<x + HeadLen(f, x), 1>>
      [] OTHER -> LET o == x + (Rnd(i + 1) % LenOf(f, x)) IN <<o, IF o % 4 = 0 /\ o + 4 <= Len(f) THEN 4 ELSE 1>>
RndChange(f, S, i) ==
    LET fd == Field(f, Pick(S, i), i + 1)  o == fd[1]
        w == Rnd(i + 5) % 3 IN
    CASE fd[2] = 1 -> <<o, <<IF w = 0 THEN Rnd(i + 6) % 256 ELSE Rnd(i + 6) % 26>>>>
      [] fd[2] = 2 -> <<o, LE(IF w = 0 THEN (Rnd(i + 6) % 24) - 12 ELSE Pick(SetSeq(V16(I16(f, o))), i + 6), 2)>>
      [] OTHER -> <<o, LE(IF w = 0 THEN Pick(S, i + 6) - Pick(S, i + 7) ELSE IF w = 1 THEN ((Rnd(i + 6) % 120) * 4) - 240 ELSE Pick(SetSeq(V32(f, o, I32(f, o), {})), i + 6), 4)>>
RndNow == LET i == (Rnd(60) % Images) + 1  f == Image(i)  S == SetSeq(Starts(f)) IN
          [k |-> i, b |-> f, c |-> IF Rnd(1) % 8 = 0 THEN Rnd(2) % Len(f) ELSE -1, p |-> [j \in 1..(1 + (Rnd(3) % 4)) |-> RndChange(f, S, 10 * j)]]
Tape == SubSeq([i \in 1..60 |-> RandomElement(0..9999)], 1, 60)
RInit == k = 1 /\ b = <<>> /\ cut = -1 /\ p = <<>> /\ r = Tape
RNext == /\ r' = SubSeq([i \in 1..60 |-> RandomElement(0..9999)], 1, 60)
         /\ LET x == RndNow IN k' = x.k /\ b' = x.b /\ cut' = x.c /\ p' = x.p
RSpec == RInit /\ [][RNext]_<<k, b, cut, p, r>>
REmit == PrintT("HR" \o ToString(<<k', b', cut', p'>>))
(* for images written by the library: whatever their size *)
LChange(i) == LET w == Rnd(i) % 3  o == Rnd(i + 1)  q == Rnd(i + 2) IN
    IF w = 0 THEN <<o, <<q % 256>>>> ELSE IF w = 1 THEN <<o - (o % 2), LE((q % 24) - 12, 2)>>
    ELSE <<o - (o % 4), LE(IF q % 2 = 0 THEN ((q % 200) * 2) - 200 ELSE Pick(<<0, 1, 2147483647, -1, -2147483647, 1073741824, 536870912>>, i + 3), 4)>>
LNow == <<0, IF Rnd(1) % 4 = 0 THEN Rnd(2) % 700 ELSE -1, [j \in 1..(1 + (Rnd(3) % 3)) |-> LChange(10 * j)]>>
LNext == r' = SubSeq([i \in 1..60 |-> RandomElement(0..9999)], 1, 60) /\ UNCHANGED <<k, b, cut, p>>
LSpec == RInit /\ [][LNext]_<<k, b, cut, p, r>>
LEmit == PrintT("HM" \o ToString(LNow))

(* ---- laws *)
Written == (b # <<>> /\ cut = -1 /\ p = <<>>) => LET R == Read(b) IN R.st = "good" /\ Names(b, R.t) # <<>>
Inside == b # <<>> => LET f == Now  R == Read(f) IN R.st = "good" =>
             LET I == Items(f, 0, 0) IN
             /\ \A j \in 1..Len(I) : I[j].o + I[j].len <= Len(f) /\ (I[j].t # "STRING" \/ I[j].r[Len(I[j].r)] = 0)
             /\ Len(Names(f, R.t)) = R.t.n /\ Len(Names(f, R.p)) = R.p.n /\ Len(NameTypes(f, R.t)) = R.t.n
             /\ Len(Walk(f, R.root, 0, Extra(f, LenOf(f, 0), R.t.n, R.p.n))) > 0
=========================================================================
