----------------------------- MODULE XbValues -----------------------------
(* Typed values: which text denotes which binary value.

   Texts are sequences of character codes, binary values sequences of bytes (little endian machine). Numbers do not fit
   TLC's integers, they are kept as sequences of decimal digits, least significant first, without leading zeros (0 is
   the empty sequence).

   For every type there is
     Canon(type, t)    t is the canonical text of a value of the type: it must be accepted, and printing gives t again;
     Denotes(type, t, b)  t denotes the value with bytes b. Denoted texts that are not canonical may be refused, but if
                       they are accepted, then as that value. A text that denotes nothing must be refused.
     Text(type, b)     the text a value is printed as (FLOAT and DOUBLE: PrintsFloat instead).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---------------------------------------------------------------- numbers of any size, least significant digit first *)
RECURSIVE Trim(_)
Trim(D) == IF D # <<>> /\ D[Len(D)] = 0 THEN Trim(SubSeq(D, 1, Len(D) - 1)) ELSE D
RECURSIVE MA(_, _, _, _, _)
MA(D, m, c, i, R) ==      \* D * m + c
    IF i > Len(D) /\ c = 0 THEN R
    ELSE LET x == (IF i > Len(D) THEN 0 ELSE D[i] * m) + c IN MA(D, m, x \div 10, i + 1, Append(R, x % 10))
MulAdd(D, m, a) == IF m = 0 THEN MA(<<>>, 1, a, 1, <<>>) ELSE MA(D, m, a, 1, <<>>)
Small(n) == MulAdd(<<>>, 1, n)
RECURSIVE AddR(_, _, _, _, _)
AddR(A, B, i, c, R) ==
    IF i > Len(A) /\ i > Len(B) THEN (IF c = 0 THEN R ELSE Append(R, c))
    ELSE LET x == (IF i > Len(A) THEN 0 ELSE A[i]) + (IF i > Len(B) THEN 0 ELSE B[i]) + c IN AddR(A, B, i + 1, x \div 10, Append(R, x % 10))
Add(A, B) == AddR(A, B, 1, 0, <<>>)
RECURSIVE SubR(_, _, _, _, _)
SubR(A, B, i, c, R) ==
    IF i > Len(A) THEN Trim(R)
    ELSE LET x == (A[i] - (IF i > Len(B) THEN 0 ELSE B[i])) - c IN SubR(A, B, i + 1, IF x < 0 THEN 1 ELSE 0, Append(R, IF x < 0 THEN x + 10 ELSE x))
Sub(A, B) == SubR(A, B, 1, 0, <<>>)        \* A >= B
RECURSIVE CmpR(_, _, _)
CmpR(A, B, i) == IF i = 0 THEN 0 ELSE IF A[i] < B[i] THEN -1 ELSE IF A[i] > B[i] THEN 1 ELSE CmpR(A, B, i - 1)
Cmp(A, B) == IF Len(A) < Len(B) THEN -1 ELSE IF Len(A) > Len(B) THEN 1 ELSE CmpR(A, B, Len(A))
RECURSIVE DivR(_, _, _, _, _)
DivR(D, m, i, r, Q) == IF i = 0 THEN <<Trim(Q), r>> ELSE LET x == (r * 10) + D[i] IN DivR(D, m, i - 1, x % m, <<x \div m>> \o Q)
DivMod(D, m) == DivR(D, m, Len(D), 0, <<>>)
RECURSIVE IntR(_, _)
IntR(D, i) == IF i > Len(D) THEN 0 ELSE D[i] + (10 * IntR(D, i + 1))
Num(D) == IntR(D, 1)                        \* small ones only
Rev(s) == [i \in 1..Len(s) |-> s[(Len(s) + 1) - i]]
Zeros(n) == [i \in 1..n |-> 0]
Shift(D, k) == IF D = <<>> THEN D ELSE Zeros(k) \o D    \* D * 10^k
RECURSIVE MulPow2(_, _)
MulPow2(D, k) == IF k >= 16 THEN MulPow2(MulAdd(D, 65536, 0), k - 16) ELSE IF k > 0 THEN MulPow2(MulAdd(D, 2, 0), k - 1) ELSE D

(* signed numbers: <<negative, digits>>, zero is not negative *)
Sg(neg, D) == <<neg /\ D # <<>>, D>>
SCmp(x, y) == IF x[1] # y[1] THEN (IF x[1] THEN -1 ELSE 1) ELSE IF x[1] THEN Cmp(y[2], x[2]) ELSE Cmp(x[2], y[2])

(* ---------------------------------------------------------------- bytes *)
RECURSIVE UnsR(_, _)
UnsR(b, i) == IF i > Len(b) THEN <<>> ELSE MulAdd(UnsR(b, i + 1), 256, b[i])
Uns(b) == UnsR(b, 1)
Sgn(b) == IF b[Len(b)] < 128 THEN <<FALSE, Uns(b)>> ELSE <<TRUE, Add(Uns([i \in 1..Len(b) |-> 255 - b[i]]), <<1>>)>>
P31 == MulPow2(<<1>>, 31)  P32 == MulPow2(<<1>>, 32)  P63 == MulPow2(<<1>>, 63)  P64 == MulPow2(<<1>>, 64)
InS(x, p) == IF x[1] THEN Cmp(x[2], p) <= 0 ELSE Cmp(x[2], p) < 0      \* signed range
InU(x, p) == ~x[1] /\ Cmp(x[2], p) < 0

(* ---------------------------------------------------------------- characters *)
IsDig(c) == c >= 48 /\ c <= 57
IsWs(c) == c = 32 \/ (c >= 9 /\ c <= 13)
HexV(c) == IF IsDig(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
AllDig(s) == \A i \in 1..Len(s) : IsDig(s[i])
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ IsWs(s[1]) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ IsWs(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RTrim(LTrim(s))
Find(s, S) == IF \E i \in 1..Len(s) : s[i] \in S THEN CHOOSE i \in 1..Len(s) : s[i] \in S /\ \A j \in 1..(i - 1) : s[j] \notin S ELSE 0
Before(s, i) == SubSeq(s, 1, i - 1)
After(s, i) == SubSeq(s, i + 1, Len(s))
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
DigOf(s) == Trim(Rev([i \in 1..Len(s) |-> s[i] - 48]))     \* digits of a text
Show(D) == IF D = <<>> THEN <<48>> ELSE [i \in 1..Len(D) |-> D[(Len(D) + 1) - i] + 48]
ShowS(x) == (IF x[1] THEN <<45>> ELSE <<>>) \o Show(x[2])
RECURSIVE PadTo(_, _)
PadTo(s, n) == IF Len(s) >= n THEN s ELSE PadTo(<<48>> \o s, n)
Pad(n, w) == PadTo(Show(Small(n)), w)
Hx == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
RECURSIVE HexText(_)
HexText(b) == [i \in 1..(2 * Len(b)) |-> LET x == b[(i + 1) \div 2] IN Hx[(IF i % 2 = 1 THEN x \div 16 ELSE x % 16) + 1]]
None == [ok |-> FALSE]

(* a decimal number: optional sign, digits, optional fraction, optional exponent: value = sign digits * 10^exp *)
Exp10(s) ==      \* exponent of a number, small
    LET n == s # <<>> /\ s[1] = 45  r == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s  d == DigOf(r) IN
    IF r = <<>> \/ ~AllDig(r) THEN None ELSE [ok |-> TRUE, v |-> IF Len(d) > 5 THEN (IF n THEN -99999 ELSE 99999) ELSE IF n THEN -Num(d) ELSE Num(d)]
Number(t, withexp) ==
    LET s == Strip(t)
        neg == s # <<>> /\ s[1] = 45
        r == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
        ei == IF withexp THEN Find(r, {69, 101}) ELSE 0
        m == IF ei = 0 THEN r ELSE Before(r, ei)
        ex == IF ei = 0 THEN [ok |-> TRUE, v |-> 0] ELSE Exp10(After(r, ei))
        di == Find(m, {46})
        ip == IF di = 0 THEN m ELSE Before(m, di)
        fp == IF di = 0 THEN <<>> ELSE After(m, di) IN
    IF ~ex.ok \/ ~AllDig(ip) \/ ~AllDig(fp) \/ (Len(ip) + Len(fp)) = 0 THEN None
    ELSE [ok |-> TRUE, neg |-> neg, d |-> DigOf(ip \o fp), e |-> ex.v - Len(fp), ni |-> Len(ip), nf |-> Len(fp), dot |-> di # 0, exp |-> ei # 0]
RECURSIVE Norm(_, _)
Norm(d, e) == IF d = <<>> THEN <<d, 0>> ELSE IF d[1] = 0 THEN Norm(Tail(d), e + 1) ELSE <<d, e>>
SameNumber(x, y) == x.ok /\ y.ok /\ Norm(x.d, x.e) = Norm(y.d, y.e) /\ (x.d = <<>> \/ x.neg = y.neg)
(* the number scaled by 10^k when that is an integer *)
Scaled(x, k) == IF ~x.ok THEN None
                ELSE LET n == Norm(x.d, x.e) IN
                     IF n[1] = <<>> THEN [ok |-> TRUE, v |-> <<FALSE, <<>>>>]
                     ELSE IF n[2] + k < 0 \/ n[2] + k > 30 THEN None
                     ELSE [ok |-> TRUE, v |-> <<x.neg, Shift(n[1], n[2] + k)>>]

Decs(ty) == CASE ty = "INT32_DECI" -> 1 [] ty = "INT32_CENTI" -> 2 [] ty = "INT32_MILI" -> 3 [] ty = "INT32_MICRO" -> 6 [] ty = "INT32_NANO" -> 9 [] OTHER -> 0
DecTypes == {"INT32_DECI", "INT32_CENTI", "INT32_MILI", "INT32_MICRO", "INT32_NANO"}
IntTypes == {"INT32", "UINT32", "INT64", "UINT64"}
FloatTypes == {"FLOAT", "DOUBLE"}
InType(ty, x) == CASE ty \in DecTypes \cup {"INT32"} -> InS(x, P31) [] ty = "INT64" -> InS(x, P63) [] ty = "UINT32" -> InU(x, P32) [] ty = "UINT64" -> InU(x, P64) [] OTHER -> FALSE
NumOf(ty, b) == IF ty \in {"UINT32", "UINT64"} THEN <<FALSE, Uns(b)>> ELSE Sgn(b)     \* value of integers and scaled decimals
Size(ty) == CASE ty \in DecTypes \cup {"INT32", "UINT32", "FLOAT", "IPv4", "UNIX_TIME", "UNIX_DATE"} -> 4
              [] ty \in {"INT64", "UINT64", "DOUBLE", "UNIX_TIME64_MSEC"} -> 8 [] ty = "GUID" -> 16 [] ty = "SHA1" -> 20 [] OTHER -> 0

(* ---------------------------------------------------------------- hexadecimal 0x numbers *)
HexNumber(t) == LET s == LTrim(t) IN
    IF Len(s) < 3 \/ Len(s) > 40 \/ s[1] # 48 \/ s[2] # 120 \/ \E i \in 3..Len(s) : HexV(s[i]) < 0 THEN None
    ELSE [ok |-> TRUE, v |-> <<FALSE, LET RECURSIVE H(_, _)  H(i, D) == IF i > Len(s) THEN D ELSE H(i + 1, MulAdd(D, 16, HexV(s[i]))) IN H(3, <<>>)>>]

(* ---------------------------------------------------------------- floating point: bits, exact value m * 2^e *)
Float(ty, b) ==
    LET n == Len(b)  top == b[n]  nxt == b[n - 1]
        e == IF ty = "FLOAT" THEN ((top % 128) * 2) + (nxt \div 128) ELSE ((top % 128) * 16) + (nxt \div 16)
        fm == IF ty = "FLOAT" THEN [i \in 1..3 |-> IF i = 3 THEN b[3] % 128 ELSE b[i]] ELSE [i \in 1..7 |-> IF i = 7 THEN b[7] % 16 ELSE b[i]]
        p == IF ty = "FLOAT" THEN 23 ELSE 52
        bias == IF ty = "FLOAT" THEN 127 ELSE 1023
        emax == IF ty = "FLOAT" THEN 255 ELSE 2047
        f == Uns(fm) IN
    [neg |-> top >= 128, fin |-> e # emax, nan |-> e = emax /\ f # <<>>, f |-> f, e0 |-> e, p |-> p,
     m |-> IF e = 0 THEN f ELSE Add(f, MulPow2(<<1>>, p)), e |-> ((IF e = 0 THEN 1 ELSE e) - bias) - p, top |-> e + 1 = emax]
(* order of d * 10^k and m * 2^e *)
CmpDB(d, k, m, e) ==
    LET a == MulPow2(IF k > 0 THEN Shift(d, k) ELSE d, IF e < 0 THEN -e ELSE 0)
        b == MulPow2(m, IF e > 0 THEN e ELSE 0)
    IN Cmp(a, IF k < 0 THEN Shift(b, -k) ELSE b)
(* the number x rounds to the value f: it lies between the neighbours' middles *)
Rounds(x, f) ==
    /\ x.ok /\ f.fin
    /\ IF x.d = <<>> THEN f.m = <<>>
       ELSE LET n == Norm(x.d, x.e) IN
            /\ x.neg = f.neg
            /\ (Len(n[1]) + n[2]) > -400 /\ (Len(n[1]) + n[2]) < 400 /\ Len(n[1]) < 800
            /\ LET even == f.f = <<>> \/ f.f[1] % 2 = 0
                   lowgap == f.f = <<>> /\ f.e0 > 1          \* a power of two: the lower neighbour is closer
                   hi == CmpDB(n[1], n[2], MulAdd(f.m, 2, 1), f.e - 1)
                   lo == IF f.m = <<>> THEN 1
                         ELSE IF lowgap THEN CmpDB(n[1], n[2], Sub(MulAdd(f.m, 4, 0), <<1>>), f.e - 2)
                         ELSE CmpDB(n[1], n[2], Sub(MulAdd(f.m, 2, 0), <<1>>), f.e - 1) IN
               /\ (hi < 0 \/ (hi = 0 /\ even))
               /\ (lo > 0 \/ (lo = 0 /\ even))
PrintsFloat(ty, b, t) == LET f == Float(ty, b)  x == Number(t, TRUE) IN
    f.fin => /\ Rounds(x, f) /\ Strip(t) = t /\ (f.m # <<>> => x.neg = f.neg)
             /\ Len(Norm(x.d, x.e)[1]) <= (IF ty = "FLOAT" THEN 9 ELSE 17)

(* ---------------------------------------------------------------- dates and times *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearDays(y) == ((365 * (y - 1970)) + (((y - 1) \div 4) - 492)) - ((((y - 1) \div 100) - 19) - (((y - 1) \div 400) - 4))    \* days from 1970 to the 1st of January
RECURSIVE MonthDays(_, _)
MonthDays(y, m) == IF m = 1 THEN 0 ELSE MDays(y, m - 1) + MonthDays(y, m - 1)
DayNo(y, m, d) == (YearDays(y) + MonthDays(y, m)) + (d - 1)
RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, r) == IF r < MDays(y, m) THEN <<y, m, r + 1>> ELSE MonthOf(y, m + 1, r - MDays(y, m))
DateOf(n) == LET y0 == 1970 + (n \div 366)
                 RECURSIVE Up(_)
                 Up(y) == IF YearDays(y + 1) <= n THEN Up(y + 1) ELSE y
                 RECURSIVE Down(_)
                 Down(y) == IF YearDays(y) > n THEN Down(y - 1) ELSE y
                 y == Up(Down(1970 + (n \div 365) + 1)) IN MonthOf(y, 1, n - YearDays(y))
DateText(n) == LET d == DateOf(n) IN Pad(d[1], 4) \o <<45>> \o Pad(d[2], 2) \o <<45>> \o Pad(d[3], 2)
TimeText(s) == Pad(s \div 3600, 2) \o <<58>> \o Pad((s \div 60) % 60, 2) \o <<58>> \o Pad(s % 60, 2)
MinDay == -719528  MaxDay == 2932896     \* years 0000 to 9999
F2(s, lo, hi) == IF Len(s) \in 1..2 /\ AllDig(s) THEN LET v == Num(DigOf(s)) IN IF v >= lo /\ v <= hi THEN [ok |-> TRUE, v |-> v] ELSE None ELSE None
(* YYYY-MM-DD -> day *)
ScanDay(s) ==
    LET n == s # <<>> /\ s[1] = 45  r == IF n THEN Tail(s) ELSE s  i == Find(r, {45})
        q == After(r, i)  j == Find(q, {45}) IN
    IF i < 2 \/ j = 0 THEN None
    ELSE LET ys == Before(r, i)  m == F2(Before(q, j), 1, 12)  d == F2(After(q, j), 1, 31) IN
         IF ~AllDig(ys) \/ Len(DigOf(ys)) > 7 \/ ~m.ok \/ ~d.ok THEN None
         ELSE LET y == IF n THEN -Num(DigOf(ys)) ELSE Num(DigOf(ys)) IN
              IF d.v > MDays(y, m.v) THEN None ELSE [ok |-> TRUE, v |-> DayNo(y, m.v, d.v)]
(* a moment: day, second of the day, thousandths, minutes of the time zone *)
ScanMoment(t) ==
    LET s == Strip(t)  i == Find(s, {32, 84})
        day == ScanDay(IF i = 0 THEN s ELSE Before(s, i))
        tm == IF i = 0 THEN <<>> ELSE After(s, i)
        isT == i # 0 /\ s[i] = 84
        zi == IF isT THEN Find(tm, {90, 43, 45}) ELSE 0
        zone == IF zi = 0 \/ tm[zi] = 90 THEN <<>> ELSE After(tm, zi)
        t1 == IF zi = 0 THEN tm ELSE Before(tm, zi)
        fi == Find(t1, {46})
        fr == IF fi = 0 THEN <<>> ELSE After(t1, fi)
        t2 == IF fi = 0 THEN t1 ELSE Before(t1, fi)
        a == Find(t2, {58})  b == IF a = 0 THEN 0 ELSE Find(After(t2, a), {58})
        h == F2(IF a = 0 THEN t2 ELSE Before(t2, a), 0, 23)
        mi == IF a = 0 THEN [ok |-> TRUE, v |-> 0] ELSE F2(IF b = 0 THEN After(t2, a) ELSE Before(After(t2, a), b), 0, 59)
        se == IF b = 0 THEN [ok |-> TRUE, v |-> 0] ELSE F2(After(After(t2, a), b), 0, 59)
        zc == Find(zone, {58})
        zh == IF zone = <<>> THEN [ok |-> zi = 0 \/ tm[zi] = 90, v |-> 0] ELSE F2(IF zc = 0 THEN zone ELSE Before(zone, zc), 0, 23)
        zm == IF zc = 0 THEN [ok |-> TRUE, v |-> 0] ELSE F2(After(zone, zc), 0, 59) IN
    IF ~day.ok THEN None
    ELSE IF i = 0 THEN [ok |-> TRUE, day |-> day.v, sec |-> 0, ms |-> 0, zone |-> 0, frac |-> 0]
    ELSE IF ~h.ok \/ ~mi.ok \/ ~se.ok \/ ~zh.ok \/ ~zm.ok \/ ~AllDig(fr) \/ (fi # 0 /\ (fr = <<>> \/ b = 0)) \/ (zi # 0 /\ tm[zi] = 90 /\ zi # Len(tm)) THEN None
    ELSE [ok |-> TRUE, day |-> day.v, sec |-> (h.v * 3600) + (mi.v * 60) + se.v,
          ms |-> IF fr = <<>> THEN 0 ELSE Num(DigOf(SubSeq(fr \o <<48, 48, 48>>, 1, 3))), frac |-> Len(fr),
          zone |-> IF zone = <<>> THEN 0 ELSE (IF tm[zi] = 45 THEN -1 ELSE 1) * ((zh.v * 60) + zm.v)]
(* seconds (per = 86400) or thousandths (per = 86400000) since 1970 as a signed number *)
Since(day, part, per) == IF day >= 0 THEN <<FALSE, MulAdd(Small(day), per, part)>>
                         ELSE Sg(TRUE, Sub(MulAdd(Small(-day), per, 0), Small(part)))
MomentSec(x) == LET s == x.sec - (x.zone * 60)  d == x.day + (s \div 86400) IN Since(d, s % 86400, 86400)
MomentMs(x) == LET s == x.sec - (x.zone * 60)  d == x.day + (s \div 86400) IN Since(d, ((s % 86400) * 1000) + x.ms, 86400000)
(* back: number of units -> day and rest *)
Split(x, per) == LET q == DivMod(x[2], per) IN
    IF ~x[1] THEN <<Num(q[1]), q[2]>> ELSE IF q[2] = 0 THEN <<-Num(q[1]), 0>> ELSE <<(-Num(q[1])) - 1, per - q[2]>>

(* ---------------------------------------------------------------- hexadecimal bytes, base64 *)
RECURSIVE HexBytes(_, _)      \* pairs of hexadecimal digits, optionally separated; None when there is something else
HexBytes(s, R) ==
    IF s = <<>> THEN [ok |-> TRUE, v |-> R]
    ELSE IF IsWs(s[1]) \/ s[1] = 45 THEN HexBytes(Tail(s), R)
    ELSE IF Len(s) < 2 \/ HexV(s[1]) < 0 \/ HexV(s[2]) < 0 THEN None
    ELSE HexBytes(SubSeq(s, 3, Len(s)), Append(R, (HexV(s[1]) * 16) + HexV(s[2])))
RECURSIVE Lines(_)
Lines(b) == IF Len(b) <= 16 THEN HexText(b) ELSE HexText(SubSeq(b, 1, 16)) \o <<10>> \o Lines(SubSeq(b, 17, Len(b)))
GuidText(b) == LET h == HexText(b) IN SubSeq(h, 1, 8) \o <<45>> \o SubSeq(h, 9, 12) \o <<45>> \o SubSeq(h, 13, 16) \o <<45>> \o SubSeq(h, 17, 20) \o <<45>> \o SubSeq(h, 21, 32)
B64(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
B64V(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71 ELSE IF IsDig(c) THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
RECURSIVE Base64(_)
Base64(b) == IF b = <<>> THEN <<>>
    ELSE LET x == b[1]  y == IF Len(b) > 1 THEN b[2] ELSE 0  z == IF Len(b) > 2 THEN b[3] ELSE 0 IN
         <<B64(x \div 4), B64(((x % 4) * 16) + (y \div 16)), IF Len(b) > 1 THEN B64(((y % 16) * 4) + (z \div 64)) ELSE 61, IF Len(b) > 2 THEN B64(z % 64) ELSE 61>>
         \o Base64(SubSeq(b, 4, Len(b)))
RECURSIVE UnBase64(_, _)
UnBase64(s, R) ==
    IF s = <<>> THEN [ok |-> TRUE, v |-> R]
    ELSE IF Len(s) < 4 THEN None
    ELSE LET a == B64V(s[1])  b == B64V(s[2])  c == B64V(s[3])  d == B64V(s[4])  last == Len(s) = 4 IN
         IF a < 0 \/ b < 0 THEN None
         ELSE LET x == (a * 4) + (b \div 16)  y == ((b % 16) * 16) + (IF c < 0 THEN 0 ELSE c \div 4)  z == IF c < 0 \/ d < 0 THEN 0 ELSE ((c % 4) * 64) + d IN
              IF s[3] = 61 THEN (IF last /\ s[4] = 61 THEN [ok |-> TRUE, v |-> Append(R, x)] ELSE None)
              ELSE IF c < 0 THEN None
              ELSE IF s[4] = 61 THEN (IF last THEN [ok |-> TRUE, v |-> R \o <<x, y>>] ELSE None)
              ELSE IF d < 0 THEN None
              ELSE UnBase64(SubSeq(s, 5, Len(s)), R \o <<x, y, z>>)

(* ---------------------------------------------------------------- IPv4: bytes in the order of the machine *)
RECURSIVE Parts(_)
Parts(s) == LET i == Find(s, {46}) IN IF i = 0 THEN <<s>> ELSE <<Before(s, i)>> \o Parts(After(s, i))
Ip(t) == LET p == Parts(Strip(t)) IN
    IF Len(p) # 4 \/ \E i \in 1..4 : p[i] = <<>> \/ ~AllDig(p[i]) \/ Len(DigOf(p[i])) > 3 \/ Num(DigOf(p[i])) > 255 THEN None
    ELSE [ok |-> TRUE, v |-> [i \in 1..4 |-> Num(DigOf(p[5 - i]))]]

(* ---------------------------------------------------------------- the size of the space of a BLOB_STRING *)
RECURSIVE Pow(_, _)
Pow(s, n) == IF s >= n THEN s ELSE Pow(s * 2, n)
Room(len) == LET n == len + 1  s == Pow(16, n)  q == s - (s \div 4) IN IF n <= 16 THEN 16 ELSE IF q >= n THEN q ELSE s

(* ---------------------------------------------------------------- Text, Denotes, Canon *)
Text(ty, b) ==
    CASE ty \in {"STRING", "BLOB_STRING"} -> b
      [] ty \in IntTypes -> ShowS(NumOf(ty, b))
      [] ty \in DecTypes -> LET x == NumOf(ty, b)  s == PadTo(Show(x[2]), Decs(ty) + 1)  k == Len(s) - Decs(ty) IN
                            (IF x[1] THEN <<45>> ELSE <<>>) \o SubSeq(s, 1, k) \o <<46>> \o SubSeq(s, k + 1, Len(s))
      [] ty = "IPv4" -> Show(Small(b[4])) \o <<46>> \o Show(Small(b[3])) \o <<46>> \o Show(Small(b[2])) \o <<46>> \o Show(Small(b[1]))
      [] ty = "UNIX_DATE" -> LET x == Sgn(b) IN DateText(IF x[1] THEN -Num(x[2]) ELSE Num(x[2]))
      [] ty = "UNIX_TIME" -> LET s == Split(<<FALSE, Uns(b)>>, 86400) IN DateText(s[1]) \o <<32>> \o TimeText(s[2])
      [] ty = "UNIX_TIME64_MSEC" -> LET s == Split(Sgn(b), 86400000) IN DateText(s[1]) \o <<32>> \o TimeText(s[2] \div 1000) \o <<46>> \o Pad(s[2] % 1000, 3)
      [] ty = "GUID" -> GuidText(b)
      [] ty = "SHA1" -> HexText(b)
      [] ty = "HEX" -> Lines(b)
      [] ty = "BLOB" -> Base64(b)
(* dates outside of the years 0..9999 are not covered *)
Covered(ty, b) == CASE ty = "UNIX_DATE" -> LET x == Sgn(b) IN Len(x[2]) < 8 /\ LET n == IF x[1] THEN -Num(x[2]) ELSE Num(x[2]) IN n >= MinDay /\ n <= MaxDay
                    [] ty = "UNIX_TIME64_MSEC" -> LET x == Sgn(b) IN Len(x[2]) < 16 /\ LET n == Split(x, 86400000)[1] IN n >= MinDay /\ n <= MaxDay
                    [] ty \in FloatTypes -> Float(ty, b).fin
                    [] OTHER -> TRUE

(* does the text denote the value b of the type? b: the bytes of the content *)
Denotes(ty, t, b) ==
    CASE ty \in {"STRING", "BLOB_STRING"} -> b = t
      [] ty = "NULL" -> t = <<>> /\ b = <<>>
      [] ty \in IntTypes \cup DecTypes ->
            LET x == Scaled(Number(t, FALSE), Decs(ty))  h == IF ty \in {"UINT64", "UINT32"} THEN HexNumber(t) ELSE None IN
            \/ x.ok /\ InType(ty, x.v) /\ NumOf(ty, b) = x.v
            \/ h.ok /\ NumOf(ty, b) = h.v
      [] ty \in FloatTypes -> Rounds(Number(t, TRUE), Float(ty, b))
      [] ty = "IPv4" -> LET x == Ip(t) IN x.ok /\ x.v = b
      [] ty = "UNIX_DATE" -> LET x == ScanDay(Strip(t)) IN x.ok /\ Sgn(b) = Since(x.v, 0, 1)
      [] ty = "UNIX_TIME" -> LET x == ScanMoment(t) IN x.ok /\ <<FALSE, Uns(b)>> = MomentSec(x) /\ x.frac = 0
      [] ty = "UNIX_TIME64_MSEC" -> LET x == ScanMoment(t) IN x.ok /\ Sgn(b) = MomentMs(x)
      [] ty \in {"GUID", "SHA1", "HEX"} -> LET x == HexBytes(t, <<>>) IN x.ok /\ x.v = b /\ (ty # "HEX" => Len(b) = Size(ty))
      [] ty = "BLOB" -> LET x == UnBase64(t, <<>>) IN x.ok /\ x.v = b
      [] OTHER -> FALSE

CanonInt(t) == LET r == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t IN r # <<>> /\ AllDig(r) /\ (r[1] = 48 => t = <<48>>)
CanonDec(t, k) == LET r == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t  i == Find(r, {46}) IN
    /\ i > 1 /\ AllDig(Before(r, i)) /\ AllDig(After(r, i)) /\ Len(After(r, i)) = k /\ (r[1] = 48 => i = 2)
    /\ (r # t => \E j \in 1..Len(r) : r[j] \in 49..57)
Canon(ty, t) ==
    CASE ty = "STRING" -> TRUE
      [] ty = "BLOB_STRING" -> TRUE
      [] ty = "NULL" -> t = <<>>
      [] ty \in IntTypes -> CanonInt(t) /\ InType(ty, Scaled(Number(t, FALSE), 0).v)
      [] ty \in DecTypes -> CanonDec(t, Decs(ty)) /\ InType(ty, Scaled(Number(t, FALSE), Decs(ty)).v)
      [] ty = "IPv4" -> LET x == Ip(t) IN x.ok /\ Text(ty, x.v) = t
      [] ty = "UNIX_DATE" -> LET x == ScanDay(t) IN x.ok /\ x.v >= MinDay /\ x.v <= MaxDay /\ DateText(x.v) = t
      [] ty = "UNIX_TIME" -> LET x == ScanMoment(t) IN x.ok /\ Len(t) = 19 /\ InU(MomentSec(x), P32) /\ DateText(x.day) \o <<32>> \o TimeText(x.sec) = t
      [] ty = "UNIX_TIME64_MSEC" -> LET x == ScanMoment(t) IN x.ok /\ x.day >= MinDay /\ x.day <= MaxDay /\ DateText(x.day) \o <<32>> \o TimeText(x.sec) \o <<46>> \o Pad(x.ms, 3) = t
      [] ty = "GUID" -> LET x == HexBytes(t, <<>>) IN x.ok /\ Len(x.v) = 16 /\ GuidText(x.v) = t
      [] ty = "SHA1" -> LET x == HexBytes(t, <<>>) IN x.ok /\ Len(x.v) = 20 /\ HexText(x.v) = t
      [] ty = "HEX" -> LET x == HexBytes(t, <<>>) IN x.ok /\ Lines(x.v) = t
      [] ty = "BLOB" -> LET x == UnBase64(t, <<>>) IN x.ok /\ Base64(x.v) = t
      [] ty \in FloatTypes -> LET x == Number(t, TRUE)  n == Norm(x.d, x.e)  a == Len(n[1]) + n[2] IN   \* plain numbers well inside of the range
            x.ok /\ Strip(t) = t /\ t[1] # 43 /\ (x.d = <<>> \/ IF ty = "FLOAT" THEN a >= -36 /\ a <= 38 ELSE a >= -306 /\ a <= 308)
      [] OTHER -> FALSE
(* canonical texts of FLOAT and DOUBLE are not unique *)
Unique(ty) == ty \notin FloatTypes

(* ---------------------------------------------------------------- detection of the type of a text *)
IsInt(t) == LET r == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t IN r # <<>> /\ AllDig(r)
LowHex(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in (48..57) \cup (97..102) \cup {10}
(* the type canonical texts are detected as; "?" when only the general law holds: the value is kept *)
DetectCanon(t) ==
    IF t = <<>> THEN "NULL"
    ELSE IF CanonInt(t) THEN (IF Len(t) > 19 THEN "?" ELSE
             LET v == Scaled(Number(t, FALSE), 0).v IN
             IF InType("INT32", v) THEN "INT32" ELSE IF InType("UINT32", v) THEN "UINT32" ELSE IF InType("INT64", v) THEN "INT64" ELSE IF InType("UINT64", v) THEN "UINT64" ELSE "?")
    ELSE IF \E ty \in DecTypes : Canon(ty, t) THEN CHOOSE ty \in DecTypes : Canon(ty, t)
    ELSE IF Number(t, TRUE).ok THEN "?"
    ELSE IF Canon("IPv4", t) THEN "IPv4"
    ELSE IF Canon("UNIX_DATE", t) THEN "UNIX_DATE"
    ELSE IF Canon("UNIX_TIME", t) THEN "UNIX_TIME"
    ELSE IF Canon("UNIX_TIME64_MSEC", t) THEN "UNIX_TIME64_MSEC"
    ELSE IF Canon("GUID", t) THEN "GUID"
    ELSE IF Canon("SHA1", t) THEN "SHA1"
    ELSE IF LowHex(t) /\ Canon("HEX", t) THEN "HEX"
    ELSE IF ScanMoment(t).ok \/ HexBytes(t, <<>>).ok \/ HexNumber(t).ok THEN "?"
    ELSE "STRING"
(* t2, the printed form of the value stored for t under type ty, denotes the same value as t *)
Kept(ty, t, t2) ==
    CASE ty \in IntTypes \cup DecTypes \cup FloatTypes -> SameNumber(Number(t, TRUE), Number(t2, TRUE)) /\ Strip(t) = t
      [] ty \in {"GUID", "SHA1"} -> Lower(t) = t2
      [] ty = "UNIX_TIME64_MSEC" -> LET x == ScanMoment(t)  y == ScanMoment(t2) IN x.ok /\ y.ok /\ MomentMs(x) = MomentMs(y) /\ x.frac = 3
      [] OTHER -> t = t2

(* ---------------------------------------------------------------- order of values: -1, 0, 1, or 2 when they cannot be compared *)
FKey(ty, b) == LET f == Float(ty, b) IN f
FCmpMag(x, y) ==      \* order of m * 2^e
    IF x.e >= y.e THEN Cmp(MulPow2(x.m, x.e - y.e), y.m) ELSE Cmp(x.m, MulPow2(y.m, y.e - x.e))
FCmp(x, y) ==
    IF x.nan \/ y.nan THEN 2
    ELSE LET inf(f) == ~f.fin
             zx == x.fin /\ x.m = <<>>  zy == y.fin /\ y.m = <<>>
             sx == IF zx THEN 0 ELSE IF x.neg THEN -1 ELSE 1
             sy == IF zy THEN 0 ELSE IF y.neg THEN -1 ELSE 1 IN
         IF sx # sy THEN (IF sx < sy THEN -1 ELSE 1)
         ELSE IF sx = 0 THEN 0
         ELSE sx * (IF inf(x) /\ inf(y) THEN 0 ELSE IF inf(x) THEN 1 ELSE IF inf(y) THEN -1 ELSE FCmpMag(x, y))
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
             ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE Lex(Tail(a), Tail(b))
Nano(ty, b) == LET x == NumOf(ty, b) IN <<x[1], Shift(x[2], 9 - Decs(ty))>>
Compare(ta, a, tb, b) ==
    IF ta \in IntTypes \cup DecTypes /\ tb \in IntTypes \cup DecTypes THEN SCmp(Nano(ta, a), Nano(tb, b))
    ELSE IF ta \in FloatTypes /\ tb \in FloatTypes THEN FCmp(Float(ta, a), Float(tb, b))
    ELSE IF ta \in {"STRING", "BLOB_STRING"} /\ tb \in {"STRING", "BLOB_STRING"} THEN Lex(a, b)
    ELSE IF ta # tb THEN 2
    ELSE CASE ta \in {"UNIX_DATE", "UNIX_TIME64_MSEC"} -> SCmp(Sgn(a), Sgn(b))
           [] ta \in {"UNIX_TIME", "IPv4"} -> Cmp(Uns(a), Uns(b))
           [] ta \in {"HEX", "BLOB", "GUID", "SHA1"} -> Lex(a, b)
           [] OTHER -> 2
=============================================================================
