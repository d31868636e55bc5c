--------------------------- MODULE XbValuesGen ---------------------------
(* Operations for values_driver.
   Kind "text":   all texts of at most MaxLen tokens          (fs for every type of Tys, dt)
   Kind "bytes":  all values of the bytes of Pool             (ts)
   Kind "days":   all days from .. to                         (ts of dates and times)
   Kind "years":  the days at which years and leap days begin (ts of dates and times)
   Kind "rnd...": random ones, every operation is a function of a tape of random numbers                                *)
EXTENDS XbValues
CONSTANTS Kind, Tys, Tokens, MaxLen, Pool
VARIABLES s, r, n
Op(o) == PrintT("HV" \o ToString(o))

(* ---- the bytes of a number *)
RECURSIVE BytesR(_, _, _)
BytesR(D, k, R) == IF k = 0 THEN R ELSE LET q == DivMod(D, 256) IN BytesR(q[1], k - 1, Append(R, q[2]))
NumBytes(x, k) == IF ~x[1] THEN BytesR(x[2], k, <<>>) ELSE LET y == BytesR(Sub(x[2], <<1>>), k, <<>>) IN [i \in 1..k |-> 255 - y[i]]
IsStr(ty) == ty \in {"STRING", "BLOB_STRING"}
Var(ty) == ty \in {"BLOB", "HEX", "BLOB_STRING"}
Raw(ty, b) == CASE ty = "STRING" -> b \o <<0>>
                [] ty = "BLOB_STRING" -> NumBytes(<<FALSE, Small(Room(Len(b)))>>, 4) \o b \o Zeros(Room(Len(b)) - Len(b))
                [] ty \in {"BLOB", "HEX"} -> NumBytes(<<FALSE, Small(Len(b))>>, 4) \o b
                [] OTHER -> b

(* ---- random values and texts from the tape r *)
R(k) == r[(k % Len(r)) + 1]
P(q, k) == q[(R(k) % Len(q)) + 1]
Edge == <<<<FALSE, <<>>>>, <<FALSE, <<1>>>>, <<TRUE, <<1>>>>, <<FALSE, P31>>, <<TRUE, P31>>, <<FALSE, Sub(P31, <<1>>)>>, <<TRUE, Add(P31, <<1>>)>>, <<FALSE, P32>>, <<FALSE, Sub(P32, <<1>>)>>,
          <<FALSE, P63>>, <<FALSE, Sub(P63, <<1>>)>>, <<TRUE, P63>>, <<TRUE, Add(P63, <<1>>)>>, <<FALSE, P64>>, <<FALSE, Sub(P64, <<1>>)>>, <<FALSE, <<0, 1>>>>, <<TRUE, <<9>>>>, <<FALSE, Small(1000000)>>, <<TRUE, Small(999)>>, <<FALSE, Small(100)>>>>
RNum(k) == IF R(k) % 3 = 0 THEN P(Edge, k + 1) ELSE LET m == (R(k + 1) % 20) + 1 IN Sg(R(k) % 3 = 1, Trim([i \in 1..m |-> R(k + 2 + i) % 10]))
RDay(k) == LET q == R(k) % 8 IN IF q = 0 THEN (R(k + 1) % 3) - 1 ELSE IF q < 4 THEN (R(k + 1) * 3) - 15000 ELSE IF q < 6 THEN MinDay + (((R(k + 1) * 365) + R(k + 2)) % 3652000)
                                ELSE (YearDays(1600 + (R(k + 1) % 800)) + 57) + (R(k + 2) % 4)
RSec(k) == (R(k) * 9) % 86400
PoolB == <<0, 1, 127, 128, 255, 32, 65, 97, 48, 10>>
RByte(k) == IF R(k) % 2 = 0 THEN P(PoolB, k + 77) ELSE R(k) % 256
RChar(k) == LET q == R(k) % 6 IN IF q = 0 THEN P(<<60, 62, 38, 34, 32, 10, 9, 37, 39>>, k + 1) ELSE IF q = 1 THEN 128 + (R(k + 1) % 128) ELSE 32 + (R(k + 1) % 95)
RLen(k) == LET q == R(k) % 8 IN IF q < 3 THEN R(k + 1) % 6 ELSE IF q < 6 THEN R(k + 1) % 50 ELSE P(<<11, 12, 13, 15, 16, 17, 23, 24, 31, 32, 33, 47, 48, 49>>, k + 1)
RBytes(ty, k) ==
    CASE ty \in {"STRING", "BLOB_STRING"} -> [i \in 1..RLen(k) |-> RChar(k + 2 + (2 * i))]
      [] ty \in {"BLOB", "HEX"} -> [i \in 1..RLen(k) |-> RByte(k + 2 + i)]
      [] ty = "UNIX_DATE" -> NumBytes(Since(RDay(k), 0, 1), 4)
      [] ty = "UNIX_TIME" -> IF R(k) % 2 = 0 THEN [i \in 1..4 |-> RByte(k + i)] ELSE NumBytes(Since(R(k + 1) * 4, RSec(k + 2), 86400), 4)
      [] ty = "UNIX_TIME64_MSEC" -> NumBytes(Since(RDay(k), (RSec(k + 5) * 1000) + (R(k + 6) % 1000), 86400000), 8)
      [] ty \in IntTypes \cup DecTypes /\ R(k) % 3 # 0 -> LET x == RNum(k + 1) IN NumBytes(IF InType(IF Size(ty) = 4 THEN "INT32" ELSE "INT64", x) THEN x ELSE <<FALSE, SubSeq(x[2], 1, 9)>>, Size(ty))
      [] OTHER -> [i \in 1..Size(ty) |-> RByte(k + i)]
Digits == [i \in 1..10 |-> <<47 + i>>]
Toks == Digits \o <<<<45>>, <<43>>, <<46>>, <<58>>, <<32>>, <<84>>, <<90>>, <<101>>, <<69>>, <<48, 120>>, <<97>>, <<70>>, <<103>>, <<61>>, <<47>>, <<10>>, <<9>>, <<34>>, <<128>>,
          <<50, 48, 50, 48>>, <<49, 57, 54, 57>>, <<45, 48, 50, 45>>, <<50, 57>>, <<51, 49>>, <<50, 51, 58, 53, 57, 58, 53, 57>>, <<48, 48>>, <<50, 53, 53>>, <<50, 53, 54>>, <<65, 65, 65, 61>>, <<65, 66, 67, 68>>>>
RECURSIVE RToks(_, _)
RToks(k, m) == IF m = 0 THEN <<>> ELSE P(Toks, k) \o RToks(k + 1, m - 1)
RFloat(k) == LET d == ShowS(RNum(k))  q == R(k + 30) % 4  e == ShowS(Sg(R(k + 31) % 2 = 0, Small(IF R(k + 32) % 3 = 0 THEN R(k + 33) % 320 ELSE R(k + 33) % 30))) IN
             IF q = 0 \/ Len(d) < 3 THEN d ELSE LET i == 2 + (R(k + 34) % (Len(d) - 2)) IN SubSeq(d, 1, i) \o <<46>> \o SubSeq(d, i + 1, Len(d)) \o (IF q = 1 THEN <<>> ELSE <<101>> \o e)
RCanon(ty, k) == LET b == RBytes(ty, k) IN
                 IF ty = "NULL" THEN <<>> ELSE IF ty \in FloatTypes THEN RFloat(k)
                 ELSE IF ty \in IntTypes /\ R(k + 50) % 2 = 0 THEN ShowS(RNum(k + 51))
                 ELSE IF ty \in DecTypes /\ R(k + 50) % 2 = 0
                      THEN LET x == RNum(k + 51)  z == PadTo(Show(x[2]), Decs(ty) + 1)  c == Len(z) - Decs(ty) IN (IF x[1] THEN <<45>> ELSE <<>>) \o SubSeq(z, 1, c) \o <<46>> \o SubSeq(z, c + 1, Len(z))
                 ELSE IF ~Covered(ty, b) THEN <<>> ELSE Text(ty, b)
Mutate(t, k) == LET i == 1 + (R(k) % (Len(t) + 1))  c == P(Toks, k + 1)  q == R(k + 2) % 6 IN
                IF q = 0 THEN SubSeq(t, 1, i - 1) \o c \o SubSeq(t, i, Len(t))
                ELSE IF q = 1 THEN SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
                ELSE IF q = 2 THEN SubSeq(t, 1, i - 1) \o c \o SubSeq(t, i + 1, Len(t))
                ELSE IF q = 3 THEN t \o c ELSE IF q = 4 THEN c \o t ELSE SubSeq(t, 1, i - 1)
RText(ty, k) == LET q == R(k) % 10 IN
                IF q < 4 THEN RCanon(ty, k + 1) ELSE IF q < 8 THEN Mutate(RCanon(ty, k + 1), k + 100)
                ELSE IF q = 8 THEN Mutate(Mutate(RCanon(ty, k + 1), k + 100), k + 104) ELSE RToks(k + 1, 1 + (R(k + 20) % 7))
NoZero(t) == [i \in 1..Len(t) |-> IF t[i] = 0 THEN 1 ELSE t[i]]
NoZ(ty, b) == IF IsStr(ty) THEN NoZero(b) ELSE b
TyAt(k) == P(Tys, k)
Order == <<"STRING", "BLOB_STRING", "INT32", "UINT32", "INT64", "UINT64", "FLOAT", "DOUBLE", "HEX", "BLOB", "GUID", "SHA1", "UNIX_TIME", "IPv4", "UNIX_TIME64_MSEC", "UNIX_DATE",
           "INT32_DECI", "INT32_CENTI", "INT32_MILI", "INT32_MICRO", "INT32_NANO">>
AllTys == Order \o <<"NULL", "VARIANT", "UNKNOWN", "IPv6", "LAST">>
Sizes == <<257, 258, 259, 260, 261, 263, 264, 300, 512, 1000, 4096>>
(* values near each other: the same, one bit more, another type with an equal value *)
Near(ty, b, k) == LET q == R(k) % 5 IN
    IF q < 2 THEN b
    ELSE IF b = <<>> THEN <<65>>
    ELSE IF q = 2 THEN LET i == 1 + (R(k + 1) % Len(b)) IN [b EXCEPT ![i] = IF ty \in {"STRING", "BLOB_STRING"} THEN (IF b[i] > 40 THEN b[i] - 1 ELSE 65) ELSE (b[i] + P(<<1, 128, 255>>, k + 2)) % 256]
    ELSE IF q = 3 /\ ty \in {"STRING", "BLOB_STRING", "HEX", "BLOB"} THEN (IF R(k + 1) % 2 = 0 THEN SubSeq(b, 1, Len(b) - 1) ELSE Append(b, 65))
    ELSE IF ty \in {"STRING", "BLOB_STRING", "HEX", "BLOB", "UNIX_DATE", "UNIX_TIME64_MSEC"} THEN RBytes(ty, k + 3)
    ELSE [b EXCEPT ![Len(b)] = (b[Len(b)] + 128) % 256]
Pair(k) == LET ta == TyAt(k)  a == RBytes(ta, k + 1)  q == R(k + 200) % 4
               tb == IF q < 2 THEN ta ELSE IF ta \in IntTypes \cup DecTypes THEN P(<<"INT32", "UINT32", "INT64", "UINT64", "INT32_DECI", "INT32_CENTI", "INT32_MILI", "INT32_MICRO", "INT32_NANO", "STRING">>, k + 201)
                     ELSE IF ta \in FloatTypes THEN P(<<"FLOAT", "DOUBLE">>, k + 201) ELSE IF IsStr(ta) THEN P(<<"STRING", "BLOB_STRING">>, k + 201) ELSE IF q = 2 THEN "STRING" ELSE TyAt(k + 201)
               b == IF tb = ta \/ (IsStr(ta) /\ IsStr(tb)) THEN Near(ta, a, k + 202)
                    ELSE IF ta \in IntTypes \cup DecTypes /\ tb \in IntTypes \cup DecTypes
                         THEN LET x == NumOf(ta, a)  y == Norm(Shift(x[2], 9 - Decs(ta)), 0)  d == y[2] - (9 - Decs(tb))  v == Sg(x[1], Shift(y[1], IF d > 0 THEN d ELSE 0)) IN
                              IF d >= 0 /\ InType(tb, v) /\ R(k + 203) % 4 # 0 THEN NumBytes(v, Size(tb)) ELSE RBytes(tb, k + 204)
                    ELSE IF tb = "STRING" /\ Covered(ta, a) /\ ta \notin FloatTypes /\ ta # "STRING" THEN Text(ta, a)
                    ELSE RBytes(tb, k + 204)
           IN <<ta, a, tb, b>>
Item(ty, k, i) == <<P(<<"i", "i", "i", "k", "o", "n">>, k + i), RBytes(ty, k + (i * 60))>>

DayOps(d) ==
    /\ Op(<<"ts", "UNIX_DATE", NumBytes(Since(d, 0, 1), 4)>>)
    /\ (d >= 0 /\ d < 49710) => Op(<<"ts", "UNIX_TIME", NumBytes(Since(d, (d * 37) % 86400, 86400), 4)>>)
    /\ Op(<<"ts", "UNIX_TIME64_MSEC", NumBytes(Since(d, ((((d % 86400) * 7919) % 86400) * 1000) + (d % 1000), 86400000), 8)>>)
Emit ==
    CASE Kind = "text" -> (\A i \in 1..Len(Tys) : Op(<<"fs", Tys[i], 0, s'>>)) /\ (MaxLen > 0 => Op(<<"dt", s'>>))
      [] Kind = "bytes" -> (Len(s') = MaxLen => \A i \in 1..Len(Tys) : Op(<<"ts", Tys[i], Raw(Tys[i], s')>>))
      [] Kind = "days" -> DayOps(n')
      [] Kind = "years" -> \A i \in 1..6 : DayOps(YearDays(n') + <<-1, 0, 1, 58, 59, 60>>[i])
      [] Kind = "join" -> \A i, j \in 1..Len(AllTys) : Op(<<"jn", AllTys[i], AllTys[j]>>)
      [] Kind = "rndfs" -> n' > 0 => Op(<<"fs", TyAt(0), R(1) % 8, NoZero(RText(TyAt(0), 2))>>)
      [] Kind = "rnddt" -> n' > 0 => Op(<<"dt", NoZero(RText(TyAt(0), 2))>>)
      [] Kind = "rndts" -> n' > 0 => Op(<<"ts", TyAt(0), Raw(TyAt(0), RBytes(TyAt(0), 1)), P(Sizes, 200), P(Sizes, 201), P(Sizes, 202)>>)
      [] Kind = "long" -> n' > 0 => LET ty == TyAt(0)  m == P(<<200, 255, 256, 257, 300, 511, 513, 768, 1000, 1023, 1024>>, 1) + (R(2) % 4) IN
                                 Op(<<"ts", ty, Raw(ty, [i \in 1..m |-> IF ty \in {"HEX", "BLOB"} THEN RByte(i + 3) ELSE RChar(i + 3)]), P(Sizes, 200), P(Sizes, 201), P(Sizes, 202)>>)
      [] Kind = "rndd2" -> n' > 0 => Op(<<"d2", P(<<"UNKNOWN", "UNKNOWN", "NULL", "INT32", "VARIANT">>, 0)>> \o [i \in 1..(2 + (R(1) % 5)) |-> NoZero(RText(TyAt(i * 120), i * 120 + 1))])
      [] Kind = "rndcm" -> n' > 0 => LET q == Pair(0) IN Op(<<"cm", q[1], Raw(q[1], NoZ(q[1], q[2])), q[3], Raw(q[3], NoZ(q[3], q[4]))>>)
      [] Kind = "rndfp" -> n' > 0 => LET ty == TyAt(0)  m == 2 + (R(1) % 5)  pr == Pair(300)  I == [i \in 1..m |-> Item(ty, 2, i)]
                                         c == R(3) % 4  tk == IF c = 0 /\ pr[1] = ty THEN pr[3] ELSE ty
                                         kv == IF c = 0 /\ pr[1] = ty THEN pr[4] ELSE IF c = 1 THEN RBytes(ty, 700) ELSE I[1 + (R(4) % m)][2]
                                         J == IF c = 0 /\ pr[1] = ty THEN [I EXCEPT ![1 + (R(4) % m)] = <<"i", pr[2]>>] ELSE I IN
                                     Op(<<"fp", ty, tk>> \o [i \in 1..m |-> <<J[i][1], Raw(ty, NoZ(ty, J[i][2]))>>] \o <<"/", Raw(tk, NoZ(tk, kv))>>)
(* instances of the constants *)
NoT == {}  NoP == <<0, 0>>
Nums == <<"INT32", "UINT32", "INT64", "UINT64", "INT32_DECI", "INT32_CENTI", "INT32_MILI", "INT32_MICRO", "INT32_NANO">>
Floats == <<"FLOAT", "DOUBLE">>
Four == <<"INT32", "UINT32", "INT32_DECI", "INT32_CENTI", "INT32_MILI", "INT32_MICRO", "INT32_NANO", "IPv4", "UNIX_TIME">>
Times == <<"UNIX_DATE", "UNIX_TIME", "UNIX_TIME64_MSEC">>
Hexes == <<"HEX", "GUID", "SHA1", "BLOB", "STRING", "BLOB_STRING">>
Var4 == <<"STRING", "BLOB_STRING", "HEX", "BLOB">>
Addr == <<"IPv4">>
Cmps == <<"STRING", "BLOB_STRING", "INT32", "UINT32", "INT64", "UINT64", "FLOAT", "DOUBLE", "HEX", "BLOB", "GUID", "SHA1", "UNIX_TIME", "IPv4", "UNIX_TIME64_MSEC", "UNIX_DATE", "INT32_DECI", "INT32_MILI", "INT32_NANO">>
TNum == {<<48>>, <<49>>, <<53>>, <<45>>, <<43>>, <<46>>, <<32>>, <<101>>, <<48, 120>>, <<97>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52>>}
TDate == {<<49>>, <<48>>, <<45>>, <<58>>, <<32>>, <<84>>, <<90>>, <<50, 48, 50, 48>>, <<45, 48, 50>>, <<45, 50, 57>>, <<51, 49>>}
TTime == {<<50, 48, 50, 48, 45, 48, 50, 45, 50, 57>>, <<32>>, <<84>>, <<90>>, <<58, 53, 57>>, <<58, 54>>, <<50, 51>>, <<46, 57>>, <<46>>, <<43>>, <<45>>, <<48>>}
THex == {<<48>>, <<97>>, <<70>>, <<103>>, <<45>>, <<32>>, <<48, 49, 50, 51, 97, 98, 99, 100>>, <<10>>, <<61>>, <<48, 48, 49, 49, 50, 50, 51, 51, 52, 52, 53, 53, 54, 54, 55, 55, 56, 56, 57, 57, 97, 97, 98, 98, 99, 99, 100, 100, 101, 101, 102, 102>>}
TB64 == {<<65>>, <<61>>, <<47>>, <<65, 65, 65, 65>>, <<43, 122, 57, 61>>, <<45>>, <<10>>}
TIp == {<<46>>, <<48>>, <<49>>, <<50, 53, 53>>, <<50, 53, 54>>, <<46, 49>>, <<46, 49, 50, 55>>, <<32>>, <<45>>}
BEdge == {0, 1, 127, 128, 255}  BFew == {0, 128, 255}  BTwo == {0, 255}
Y1 == <<1, 9999>>  Y2 == <<1690, 2120>>  D1 == <<-2, 800>>  D2 == <<-140000, 160000>>  DA == <<-719528, -719000>>  DB == <<2932400, 2932896>>
Init == s = <<>> /\ r = <<>> /\ n = IF Kind \in {"days", "years"} THEN Pool[1] - 1 ELSE 0
Next == \/ Kind = "text" /\ n < MaxLen /\ (\E t \in Tokens : s' = s \o t) /\ n' = n + 1 /\ UNCHANGED r
        \/ Kind = "bytes" /\ Len(s) < MaxLen /\ (\E b \in Tokens : s' = Append(s, b)) /\ UNCHANGED <<r, n>>
        \/ Kind = "join" /\ n = 0 /\ n' = 1 /\ UNCHANGED <<s, r>>
        \/ Kind \in {"days", "years"} /\ n < Pool[2] /\ n' = n + 1 /\ UNCHANGED <<s, r>>
        \/ Kind \in {"rndfs", "rnddt", "rndts", "rndd2", "rndcm", "rndfp", "long"} /\ r' = SubSeq([i \in 1..1200 |-> RandomElement(0..9999)], 1, 1200) /\ n' = (IF r = <<>> THEN 0 ELSE 1) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, r, n>>
=========================================================================
