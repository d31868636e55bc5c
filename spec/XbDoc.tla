------------------------------ MODULE XbDoc ------------------------------
(* Documents of the binary format.

   A document is the sequence of its elements in document order (parents before children): d depth, n name,
   a attributes (sequence of [n, v]), t text. It is built as an XML text is written: Open an element, give it
   attributes and text, Close it; the result is a document when everything is closed.

   Defined here: structure (children, ancestors, orders of traversal, lookups), dictionaries and the type of a name,
   and how a packed document shares equal subtrees. XbDocMC checks the laws of these definitions on all small documents. *)
EXTENDS XbValues
W == INSTANCE XbwTypes

(* ---- structure *)
RECURSIVE LastR(_, _, _)
LastR(D, i, j) == IF j = Len(D) \/ D[j + 1].d <= D[i].d THEN j ELSE LastR(D, i, j + 1)
Last(D, i) == LastR(D, i, i)                                  \* last element of the subtree of i
RECURSIVE KidsR(_, _, _, _)
KidsR(D, i, j, R) == IF j > Len(D) \/ D[j].d <= D[i].d THEN R ELSE KidsR(D, i, j + 1, IF D[j].d = D[i].d + 1 THEN Append(R, j) ELSE R)
Kids(D, i) == KidsR(D, i, i + 1, <<>>)
Parent(D, i) == CHOOSE j \in 1..(i - 1) : D[j].d = D[i].d - 1 /\ \A k \in (j + 1)..(i - 1) : D[k].d >= D[i].d
RECURSIVE Path(_, _)
Path(D, i) == IF D[i].d = 0 THEN <<>> ELSE LET p == Parent(D, i) IN Append(Path(D, p), p)       \* ancestors, the root first
RECURSIVE Post(_, _), PostL(_, _, _)
Post(D, i) == Append(PostL(D, Kids(D, i), 1), i)
PostL(D, K, k) == IF k > Len(K) THEN <<>> ELSE Post(D, K[k]) \o PostL(D, K, k + 1)
WellNested(D) == D # <<>> /\ D[1].d = 0 /\ \A i \in 2..Len(D) : D[i].d >= 1 /\ D[i].d <= D[i - 1].d + 1
First(K, Is(_)) == IF \E k \in 1..Len(K) : Is(K[k]) THEN CHOOSE k \in 1..Len(K) : Is(K[k]) /\ \A q \in 1..(k - 1) : ~Is(K[q]) ELSE 0
ChildNamed(D, i, n) == LET K == Kids(D, i)  k == First(K, LAMBDA x : D[x].n = n) IN IF k = 0 THEN 0 ELSE K[k]
AttrNamed(D, i, n) == First(D[i].a, LAMBDA x : x.n = n)

(* ---- dictionaries: the names of elements and of attributes *)
Tags(D) == {D[i].n : i \in 1..Len(D)}
Attrs(D) == UNION {{D[i].a[k].n : k \in 1..Len(D[i].a)} : i \in 1..Len(D)}
Sorted(L) == \A i \in 1..(Len(L) - 1) : Lex(L[i], L[i + 1]) < 0
RECURSIVE SortNames(_)
SortNames(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Lex(x, y) < 0 IN <<m>> \o SortNames(S \ {m})
RECURSIVE SearchR(_, _, _, _)
SearchR(L, n, a, b) == IF a >= b THEN -1 ELSE LET m == (a + b) \div 2  c == Lex(n, L[m + 1]) IN IF c = 0 THEN m ELSE IF c < 0 THEN SearchR(L, n, a, m) ELSE SearchR(L, n, m + 1, b)
Search(L, n) == SearchR(L, n, 0, Len(L))                      \* id of a name, -1 when there is none

(* ---- the type of a name: the least one that represents all of its values. V: sequence of [v value, dt its own type] *)
J(a, b) == IF a = "LAST" THEN b ELSE IF b = "LAST" THEN a ELSE W!Join(a, b)
RECURSIVE FoldT(_, _)
FoldT(a, V) == IF V = <<>> THEN a ELSE FoldT(J(a, Head(V).dt), Tail(V))
Fits(ty, t) == ty \in IntTypes \cup DecTypes =>
    \/ LET x == Scaled(Number(t, FALSE), Decs(ty)) IN x.ok /\ InType(ty, x.v)
    \/ LET x == HexNumber(t) IN x.ok /\ InType(ty, x.v)
TypeOf(V) == IF V = <<>> THEN "NULL"
             ELSE LET f == FoldT("UNKNOWN", V) IN IF \A i \in 1..Len(V) : Fits(f, V[i].v) THEN f ELSE "VARIANT"

(* ---- sharing: an element's subtree, independent of where it stands *)
Slice(D, i) == [k \in 1..((Last(D, i) - i) + 1) |-> [D[(i + k) - 1] EXCEPT !.d = @ - D[i].d]]
(* the packed form: nodes (one for every different subtree) that refer to the nodes of their children *)
Node(D, i) == [n |-> D[i].n, a |-> D[i].a, t |-> D[i].t, c |-> [k \in 1..Len(Kids(D, i)) |-> Slice(D, Kids(D, i)[k])]]
Store(D) == [s \in {Slice(D, i) : i \in 1..Len(D)} |-> Node(D, CHOOSE i \in 1..Len(D) : Slice(D, i) = s)]
RECURSIVE Unpack(_, _, _), UnpackL(_, _, _, _)
Unpack(P, s, d) == <<[d |-> d, n |-> P[s].n, a |-> P[s].a, t |-> P[s].t]>> \o UnpackL(P, P[s].c, d + 1, 1)
UnpackL(P, C, d, k) == IF k > Len(C) THEN <<>> ELSE Unpack(P, C[k], d) \o UnpackL(P, C, d, k + 1)
=========================================================================
