---------------------------- MODULE XbwImage ----------------------------
(* The binary document (.xb) made of a shared-memory one, and how an open-ended one grows.

   Image: the elements in document order with the names of their ids, their types and values as they are, their
   attributes in order; both dictionaries whole and in order of names.  Printed, it is the same document to an XML
   parser, as far as it can be written as XML.  It can be made when all names are known.

   A child called et-tecera makes its parent open-ended: everything appended to the file later takes the place of
   that child and of what follows it.  Appended elements use the names the document had when it was written.       *)
EXTENDS XbwDoc

EtTecera == -9
NameOf(D, id) == IF id = EtTecera THEN "et-tecera" ELSE D[id + 1][1]
RECURSIVE Rec(_, _, _)
RECURSIVE RecAll(_, _, _)
Rec(d, h, deep) == <<<<h, deep>>>> \o RecAll(d, Ch(d, h), deep + 1)
RecAll(d, s, deep) == IF s = <<>> THEN <<>> ELSE Rec(d, Head(s), deep) \o RecAll(d, Tail(s), deep)
Image(d, h0) ==
    LET R == Rec(d, h0, 0)
        at(h) == LET A == At(d, h) IN [j \in 1..Len(A) |-> LET a == d.el[A[j]] IN <<d.P[a.id + 1][1], a.t, a.v>>] IN
    [i \in 1..Len(R) |-> LET m == d.el[R[i][1]] IN [d |-> R[i][2], n |-> NameOf(d.T, m.id), t |-> m.t, v |-> m.v, a |-> at(R[i][1])]]
Complete(d) ==
    LET R == Rec(d, d.root, 0) IN
    /\ d.Tr
    /\ \A i \in DOMAIN R : LET h == R[i][1]  A == At(d, h) IN
          /\ d.el[h].id \in (0..(Len(d.T) - 1)) \cup {EtTecera}
          /\ \A j \in DOMAIN A : d.Pr /\ d.el[A[j]].id \in 0..(Len(d.P) - 1)

(* ---- growing ---- *)
NoXb == [T |-> {}, P |-> {}, base |-> <<>>, app |-> <<>>]     \* nothing is known about it
Names(L) == {L[i][1] : i \in DOMAIN L}
Written(d, e) == [T |-> Names(e.dt), P |-> Names(e.dp), base |-> Image(d, d.root), app |-> <<>>]
CanAppend(d, x, h) ==
    LET R == Rec(d, h, 0) IN
    /\ d.Tr
    /\ \A i \in DOMAIN R : LET g == R[i][1]  A == At(d, g) IN
          /\ d.el[g].id \in 0..(Len(d.T) - 1) /\ d.T[d.el[g].id + 1][1] \in x.T
          /\ \A j \in DOMAIN A : d.Pr /\ d.el[A[j]].id \in 0..(Len(d.P) - 1) /\ d.P[d.el[A[j]].id + 1][1] \in x.P
RECURSIVE HowMany(_, _, _)
HowMany(d, x, L) == IF L = <<>> \/ ~CanAppend(d, x, L[1]) THEN 0 ELSE 1 + HowMany(d, x, Tail(L))
Deeper(s, n) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.d = @ + n]]
RECURSIVE Cat(_)
Cat(L) == IF L = <<>> THEN <<>> ELSE Head(L) \o Cat(Tail(L))
IsOpenEnd(x) == \E i \in 2..Len(x.base) : x.base[i].n = "et-tecera"
(* what readers see when the first n appended elements are in the file *)
View(x, n) ==
    LET s == x.base
        tec(i) == i > 1 /\ s[i].n = "et-tecera"
        hidden(i) == \E j \in 2..(i - 1) : tec(j) /\ \A k \in j..i : s[k].d >= s[j].d
        piece(i) == IF hidden(i) THEN <<>>
                    ELSE IF tec(i) THEN Cat([k \in 1..n |-> Deeper(x.app[k], s[i].d)])
                    ELSE <<s[i]>>
    IN Cat([i \in 1..Len(s) |-> piece(i)])
=========================================================================
