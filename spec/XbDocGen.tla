---------------------------- MODULE XbDocGen ----------------------------
(* Random documents: a function of a tape of random numbers. Some elements are copies of earlier subtrees, exact or
   changed in one place; every name has a preferred type of values.                                                  *)
EXTENDS XbValuesGen
DOC == INSTANCE XbDoc
NP == <<<<97>>, <<97, 98>>, <<97, 98, 99>>, <<98>>, <<65>>, <<95, 120>>, <<97, 45, 98>>, <<97, 46, 98>>, <<195, 169>>, <<99, 111, 117, 110, 116>>, <<104, 97, 115, 104>>, <<97, 49>>, <<122>>,
        <<110, 97, 109, 101>>, <<97, 98, 99, 100, 101, 102, 103, 104>>, <<97, 98, 99, 100, 101, 102, 103, 105>>, <<105, 100>>>>
(* some documents have long names with a long common beginning *)
LongBy == P(<<0, 0, 0, 0, 0, 0, 0, 0, 15, 31, 62, 63, 64, 100, 127, 255, 300>>, 4)
RName(k) == [i \in 1..LongBy |-> 97 + (i % 23)] \o NP[((R(2) + (R(k) % (1 + (R(1) % 7)))) % Len(NP)) + 1]
Cls(nm) == TyAt(100 + nm[Len(nm)] + Len(nm))
(* characters XML can carry *)
Sane(t) == LET RECURSIVE X(_, _)
               X(i, S) == IF i > Len(t) THEN S
                          ELSE X(i + 1, IF t[i] >= 128 THEN S \o <<195, 128 + (t[i] % 64)>> ELSE IF t[i] < 32 /\ t[i] \notin {9, 10, 13} THEN Append(S, 32) ELSE Append(S, t[i])) IN X(1, <<>>)
RValue(nm, k) == LET q == R(k) % 12 IN
    IF q < 3 THEN <<>> ELSE IF q < 9 THEN Sane(RCanon(Cls(nm), k + 1)) ELSE IF q < 11 THEN Sane(RText(TyAt(k + 2), k + 3))
    ELSE IF R(k + 1) % 5 # 0 THEN Sane(RText(Cls(nm), k + 3))
    ELSE LET m == P(<<255, 256, 257, 1000, 4095, 4096, 4097>>, k + 2) IN Sane([i \in 1..(m - 2) |-> RChar(k + (2 * i))]) \o <<46, 46>>
(* a text like t: the same, a beginning, longer, changed in one place *)
Twist(t, k) == LET m == Len(t)  q == R(k) % 8  i == 1 + (R(k + 1) % (IF m = 0 THEN 1 ELSE m)) IN
    IF m = 0 \/ \E j \in 1..m : t[j] >= 128 THEN t
    ELSE IF q = 0 THEN t ELSE IF q = 1 THEN SubSeq(t, 1, m - 1) ELSE IF q = 2 THEN Append(t, P(<<32, 48, 49, 97, 120>>, k + 2))
    ELSE IF q = 3 THEN [t EXCEPT ![m] = P(<<48, 49, 50, 97, 98>>, k + 2)] ELSE IF q = 4 THEN [t EXCEPT ![1] = P(<<45, 48, 49, 65, 122>>, k + 2)]
    ELSE IF q = 5 THEN SubSeq(t, 1, i) ELSE IF q = 6 /\ m < 300 THEN t \o t ELSE [t EXCEPT ![i] = P(<<46, 48, 49, 65, 122>>, k + 2)]
Texts(A) == [i \in 1..Len(A) |-> A[i].v]
Like(V, nm, k) == IF V # <<>> /\ R(k + 3) % 3 = 0 THEN Twist(V[Len(V) - (R(k + 4) % (IF R(k + 5) % 2 = 0 THEN 1 ELSE Len(V)))], k + 6) ELSE RValue(nm, k)
RECURSIVE RAttrs(_, _, _, _)
RAttrs(V, k, m, A) == IF m = 0 THEN A
    ELSE LET nm == RName(k) IN RAttrs(V, k + 17, m - 1, IF \E i \in 1..Len(A) : A[i].n = nm THEN A ELSE Append(A, [n |-> nm, v |-> Like(V \o Texts(A), nm, k + 1)]))
RNode(V, d, k) == LET nm == RName(k) IN [d |-> d, n |-> nm, a |-> RAttrs(V, k + 50, P(<<0, 0, 1, 1, 2, 3, 5>>, k + 1), <<>>), t |-> Like(V, nm, k + 2)]
Change(S, k) == LET i == 1 + (R(k) % Len(S))  q == R(k + 1) % 5 IN
    IF q = 0 THEN [S EXCEPT ![i].t = RValue(S[i].n, k + 2)]
    ELSE IF q = 4 THEN [S EXCEPT ![i].t = Twist(@, k + 2)]
    ELSE IF q = 1 /\ S[i].a # <<>> THEN LET j == 1 + (R(k + 9) % Len(S[i].a)) IN [S EXCEPT ![i].a[j].v = IF R(k + 8) % 2 = 0 THEN Twist(@, k + 2) ELSE RValue(S[i].a[1].n, k + 2)]
    ELSE IF q = 2 THEN [S EXCEPT ![i].n = RName(k + 2)]
    ELSE IF Len(S) > 1 THEN SubSeq(S, 1, DOC!Last(S, 2) - 1) \o SubSeq(S, DOC!Last(S, 2) + 1, Len(S)) ELSE [S EXCEPT ![i].a = RAttrs(<<>>, k + 50, 1, <<>>)]
RECURSIVE AllTexts(_)
AllTexts(D) == IF D = <<>> THEN <<>> ELSE Texts(D[1].a) \o <<D[1].t>> \o AllTexts(Tail(D))
RECURSIVE RDoc(_, _)
RDoc(m, D) == IF Len(D) >= m THEN D
    ELSE LET k == 150 + (Len(D) * 71)
             d == IF D = <<>> THEN 0 ELSE 1 + (R(k) % (D[Len(D)].d + 1))
             j == 2 + (R(k + 1) % (IF Len(D) > 1 THEN Len(D) - 1 ELSE 1))
             S == DOC!Slice(D, j) IN
         IF Len(D) > 1 /\ R(k + 2) % 3 = 0 /\ (Len(D) + Len(S)) <= m
         THEN RDoc(m, D \o (LET C == IF R(k + 3) % 3 = 0 THEN Change(S, k + 4) ELSE S IN [i \in 1..Len(C) |-> [C[i] EXCEPT !.d = @ + d]]))
         ELSE RDoc(m, Append(D, RNode(AllTexts(D), d, k + 5)))
DEmit == n' > 0 => LET D == RDoc(1 + (R(0) % MaxLen), <<>>) IN
    PrintT("HX" \o ToString(<<R(3) % 4096, [i \in 1..Len(D) |-> <<D[i].d, D[i].n, D[i].t, [k \in 1..Len(D[i].a) |-> <<D[i].a[k].n, D[i].a[k].v>>]>>]>>))
DNext == r' = SubSeq([i \in 1..1200 |-> RandomElement(0..9999)], 1, 1200) /\ n' = (IF r = <<>> THEN 0 ELSE 1) /\ UNCHANGED s
DSpec == Init /\ [][DNext]_<<s, r, n>>
=========================================================================
