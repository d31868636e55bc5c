------------------------------ MODULE XbCopy ------------------------------
(* Copying a path of elements of one document (S) into another one (T), merging by keys.

   Both are documents as in XbDoc: [d, n, t value, a attributes [n, t value]]. K is the set of names of attributes that are
   keys. A path is the sequence of indices of elements from the root of S. base: 0, or 1 when T is a transaction, that is an
   element around the document. *)
EXTENDS XbDoc
CONSTANTS SameValue(_, _), NoValue
KeysOf(e, K) == SelectSeq(e.a, LAMBDA a : a.n \in K)
SameKeys(x, e, K) ==
    LET A == KeysOf(x, K)  B == KeysOf(e, K) IN
    /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : A[i].n = B[j].n /\ SameValue(A[i].t, B[j].t)
    /\ \A j \in 1..Len(B) : \E i \in 1..Len(A) : A[i].n = B[j].n
Matches(x, e, K) == x.n = e.n /\ SameKeys(x, e, K)
PathElement(e, d, K) == [e EXCEPT !.d = d, !.t = NoValue, !.a = KeysOf(e, K)]
RECURSIVE Fresh(_, _, _, _, _, _)      \* what is added from the k-th element of the path on
Fresh(S, P, k, d, whole, K) ==
    IF k < Len(P) THEN <<PathElement(S[P[k]], d, K)>> \o Fresh(S, P, k + 1, d + 1, whole, K)
    ELSE IF whole THEN LET X == Slice(S, P[k]) IN [i \in 1..Len(X) |-> [X[i] EXCEPT !.d = @ + d]] ELSE <<PathElement(S[P[k]], d, K)>>
Added(T, at, S, P, k, whole, K) ==     \* it becomes the last child of at (0: the root)
    LET j == IF at = 0 THEN 0 ELSE Last(T, at)  F == Fresh(S, P, k, IF at = 0 THEN 0 ELSE T[at].d + 1, whole, K) IN
    [ok |-> TRUE, T |-> SubSeq(T, 1, j) \o F \o SubSeq(T, j + 1, Len(T)), at |-> ((j + 1) + Len(P)) - k, new |-> F]
RECURSIVE Walk(_, _, _, _, _, _, _)    \* at: the element of T for P[k]
Walk(T, at, S, P, k, whole, K) ==
    IF k = Len(P) THEN [ok |-> TRUE, T |-> T, at |-> at, new |-> <<>>]
    ELSE LET Is(x) == Matches(T[x], S[P[k + 1]], K)  C == Kids(T, at)  m == First(C, Is) IN
         IF m = 0 THEN Added(T, at, S, P, k + 1, whole, K) ELSE Walk(T, C[m], S, P, k + 1, whole, K)
CopyPath(T, base, S, P, whole, K) ==
    IF Len(T) = base THEN Added(T, base, S, P, 1, whole, K)
    ELSE IF Matches(T[base + 1], S[P[1]], K) THEN Walk(T, base + 1, S, P, 1, whole, K)
    ELSE [ok |-> FALSE, T |-> T, at |-> 0, new |-> <<>>]
Route(S, i) == Append(Path(S, i), i)
=========================================================================
