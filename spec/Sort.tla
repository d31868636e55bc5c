------------------------------- MODULE Sort -------------------------------
(* The sorting routines, as what they promise and as the algorithms they are.

   An element is a record [k: key, i: its place in the input]. A comparison is a weak order of keys given by Rank(mode, k);
   the caller's context carries the mode, so that using another context gives another order.                          *)
EXTENDS Integers, Sequences, FiniteSets
Rank(mode, k) == CASE mode = "up" -> k [] mode = "down" -> -k [] mode = "par" -> k % 2 [] mode = "flat" -> 0
Input(keys) == [i \in 1..Len(keys) |-> [k |-> keys[i], i |-> i]]
Le(mode, a, b) == Rank(mode, a.k) <= Rank(mode, b.k)
Permutation(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : b[j].i = i /\ b[j].k = a[i].k
Ordered(mode, s) == \A i \in 1..(Len(s) - 1) : Le(mode, s[i], s[i + 1])
Stable(mode, s) == \A i \in 1..(Len(s) - 1) : (Rank(mode, s[i].k) = Rank(mode, s[i + 1].k)) => s[i].i < s[i + 1].i
GoodSort(mode, keys, s) == Permutation(Input(keys), s) /\ Ordered(mode, s)
GoodMerge(mode, keys, s) == GoodSort(mode, keys, s) /\ Stable(mode, s)
(* the stable result is unique: computed by insertion *)
RECURSIVE Ins(_, _, _)
Ins(mode, s, x) == IF s = <<>> \/ Le(mode, s[Len(s)], x) THEN Append(s, x) ELSE Append(Ins(mode, SubSeq(s, 1, Len(s) - 1), x), s[Len(s)])
RECURSIVE StableOf(_, _)
StableOf(mode, s) == IF s = <<>> THEN <<>> ELSE Ins(mode, StableOf(mode, SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

(* ---- the algorithms ---- *)
RECURSIVE Merge(_, _, _)
Merge(mode, a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                     ELSE IF Le(mode, Head(a), Head(b)) THEN <<Head(a)>> \o Merge(mode, Tail(a), b) ELSE <<Head(b)>> \o Merge(mode, a, Tail(b))
Minn(a, b) == IF a < b THEN a ELSE b
(* one pass: neighbouring runs of length m are merged *)
RECURSIVE Pass(_, _, _, _)
Pass(mode, s, m, at) == IF at > Len(s) THEN <<>>
    ELSE LET ae == Minn(at + m - 1, Len(s))  be == Minn(ae + m, Len(s)) IN Merge(mode, SubSeq(s, at, ae), SubSeq(s, ae + 1, be)) \o Pass(mode, s, m, be + 1)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
=========================================================================
