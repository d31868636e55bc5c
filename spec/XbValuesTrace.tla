-------------------------- MODULE XbValuesTrace --------------------------
(* Events of values_driver, see there. Bytes and texts are sequences of numbers. *)
EXTENDS XbValues, Json, IOUtils
VARIABLE l
W == INSTANCE XbwTypes
Trace == ndJsonDeserialize(IOEnv.TRACE)

AlignOf(ty) == IF ty \in {"STRING", "NULL"} THEN 1 ELSE IF Size(ty) = 8 THEN 8 ELSE 4
Gap(off, a) == (a - (off % a)) % a
(* the value stored in the bytes r *)
Body(ty, r) ==
    CASE ty = "NULL" -> IF r = <<>> THEN [ok |-> TRUE, b |-> <<>>] ELSE None
      [] ty = "STRING" -> IF Len(r) > 0 /\ Find(r, {0}) = Len(r) THEN [ok |-> TRUE, b |-> Before(r, Len(r))] ELSE None
      [] ty \in {"BLOB", "HEX", "BLOB_STRING"} ->
            IF Len(r) < 4 \/ Uns(SubSeq(r, 1, 4)) # Small(Len(r) - 4) THEN None
            ELSE LET c == SubSeq(r, 5, Len(r)) IN
                 IF ty # "BLOB_STRING" THEN [ok |-> TRUE, b |-> c]
                 ELSE LET i == Find(c, {0}) IN
                      IF i = 0 \/ \E j \in i..Len(c) : c[j] # 0 THEN None ELSE IF Len(c) # Room(i - 1) THEN None ELSE [ok |-> TRUE, b |-> Before(c, i)]
      [] OTHER -> IF Len(r) = Size(ty) THEN [ok |-> TRUE, b |-> r] ELSE None
Printed(ty, b, t) == IF ty \in FloatTypes THEN PrintsFloat(ty, b, t) ELSE ty = "NULL" \/ (Covered(ty, b) => t = Text(ty, b))

GoodFs(e) ==
    /\ e.bad = 0
    /\ IF e.ok = 0 THEN ~Canon(e.ty, e.t)
       ELSE LET B == Body(e.ty, SubSeq(e.raw, Gap(e.off, AlignOf(e.ty)) + 1, Len(e.raw))) IN
            /\ B.ok
            /\ Denotes(e.ty, e.t, B.b)
            /\ Printed(e.ty, B.b, e.t2) /\ (e.null = 1 => e.t2 = <<>>)
            /\ (Unique(e.ty) /\ Canon(e.ty, e.t) => e.t2 = e.t)
            /\ e.fit \in {-1, Len(e.raw)}
Xml(t) == LET RECURSIVE X(_, _)
              X(i, R) == IF i > Len(t) THEN R
                         ELSE X(i + 1, R \o (CASE t[i] = 60 -> <<38, 108, 116, 59>> [] t[i] = 62 -> <<38, 103, 116, 59>> [] t[i] = 38 -> <<38, 97, 109, 112, 59>>
                                               [] t[i] = 34 -> <<38, 113, 117, 111, 116, 59>> [] OTHER -> <<t[i]>>)) IN X(1, <<>>)
RECURSIVE Cat(_, _)
Cat(P, i) == IF i > Len(P) THEN <<>> ELSE P[i] \o Cat(P, i + 1)
GoodTs(e) ==
    LET B == Body(e.ty, e.raw) IN
    /\ e.bad = 0
    /\ B.ok
    /\ Printed(e.ty, B.b, e.t) /\ (e.null = 1 => e.t = <<>>)
    /\ e.st = e.t
    /\ (\A i \in 1..Len(e.t) : e.t[i] \notin {39}) => e.xm = Xml(e.t)
    /\ \A i \in 1..Len(e.pc) : e.pc[i].end = 1 /\ Cat(e.pc[i].p, 1) = e.t
    /\ Covered(e.ty, B.b) => e.ok = 1 /\ e.b2 = e.raw
GoodDt(e) ==
    /\ e.bad = 0 /\ e.ok = 1
    /\ LET B == Body(e.ty, e.raw) IN B.ok /\ Denotes(e.ty, e.t, B.b)
    /\ Kept(e.ty, e.t, e.t2)
    /\ DetectCanon(e.t) \in {"?", e.ty}
J(a, b) == IF a = "LAST" THEN b ELSE IF b = "LAST" THEN a ELSE W!Join(a, b)
GoodJn(e) == IF {e.a, e.b} \subseteq {"NULL", "UNKNOWN", "LAST"} THEN e.r \in {e.a, e.b} ELSE e.r = J(e.a, e.b)
RECURSIVE Fold(_, _)
Fold(a, D) == IF D = <<>> THEN a ELSE Fold(J(a, Head(D)), Tail(D))
GoodD2(e) == e.r = Fold(e.from, e.d)
Neg(x) == IF x = 2 THEN 2 ELSE -x
Val(ty, r) == Body(ty, r).b
IsText(ty) == ty \in {"STRING", "BLOB_STRING"}
NegZero(ty, a) == ty \in FloatTypes /\ (LET f == Float(ty, a) IN f.nan \/ f.m = <<>>)
GoodCm(e) ==
    LET a == Val(e.ta, e.a)  b == Val(e.tb, e.b)  c == Compare(e.ta, a, e.tb, b) IN
    /\ e.r = c /\ e.q = Neg(c)
    /\ e.e = e.f
    /\ IF e.ta = e.tb \/ (IsText(e.ta) /\ IsText(e.tb)) THEN NegZero(e.ta, a) \/ (e.e = 1 <=> a = b)
       ELSE IF e.ta = "STRING" THEN (e.e = 1 => Denotes(e.tb, a, b)) /\ (Canon(e.tb, a) /\ Denotes(e.tb, a, b) => e.e = 1)
       ELSE IF e.tb = "STRING" THEN (e.e = 1 => Denotes(e.ta, b, a)) /\ (Canon(e.ta, b) /\ Denotes(e.ta, b, a) => e.e = 1)
       ELSE e.e = 1 => c = 0
GoodFp(e) ==
    LET k == Val(e.tk, e.k)
        hit(i) == e.v[i].k = "i" /\ Compare(e.ty, Val(e.ty, e.v[i].raw), e.tk, k) = 0 IN
    e.res = (IF \E i \in 1..Len(e.v) : hit(i) THEN CHOOSE i \in 1..Len(e.v) : hit(i) /\ \A j \in 1..(i - 1) : ~hit(j) ELSE 0)
Good(e) == CASE e.n = "fs" -> GoodFs(e) [] e.n = "ts" -> GoodTs(e) [] e.n = "dt" -> GoodDt(e) [] e.n = "jn" -> GoodJn(e)
             [] e.n = "d2" -> GoodD2(e) [] e.n = "cm" -> GoodCm(e) [] e.n = "fp" -> GoodFp(e)
Init == l = 1
Next == l <= Len(Trace) /\ LET e == Trace[l] IN (IF e.n = "RESET" THEN PrintT(<<"AT", l>>) ELSE IF e.n = "CRASH" THEN FALSE ELSE Good(e) = TRUE) /\ l' = l + 1
TSpec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=========================================================================
