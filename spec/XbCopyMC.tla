---------------------------- MODULE XbCopyMC ----------------------------
(* All small documents, and all sequences of copies of their elements: the laws, and scripts for xb_driver (Emit). *)
EXTENDS XbCopy
CONSTANTS Names, Texts, AttrNames, AttrValues, MaxNodes, MaxAttrs, MaxDepth, Keys, MaxOps
VARIABLES D, open, T, old, h
M == INSTANCE XbDocMC
MCSame(x, y) == x = y
MCNone == <<>>
Src == [i \in 1..Len(D) |-> [d |-> D[i].d, n |-> D[i].n, t |-> D[i].t, a |-> [k \in 1..Len(D[i].a) |-> [n |-> D[i].a[k].n, t |-> D[i].a[k].v]]]]
Init == M!Init /\ T = <<>> /\ old = <<>> /\ h = <<>>
Copy(i, w) == LET R == CopyPath(T, 0, Src, Route(Src, i), w, Keys) IN T' = R.T /\ old' = T /\ h' = Append(h, <<i, IF w THEN 1 ELSE 0>>) /\ UNCHANGED <<D, open>>
Next == \/ h = <<>> /\ M!Next /\ UNCHANGED <<T, old, h>>
        \/ D # <<>> /\ open = 0 /\ Len(h) < MaxOps /\ \E i \in 1..Len(D), w \in BOOLEAN : Copy(i, w)
Spec == Init /\ [][Next]_<<D, open, T, old, h>>
(* ---- laws *)
RECURSIVE All(_, _)
All(X, i) == IF i > Len(Src) THEN X ELSE All(CopyPath(X, 0, Src, Route(Src, i), FALSE, Keys).T, i + 1)
KeysUnique == \A i, j \in 2..Len(Src) : i # j /\ Parent(Src, i) = Parent(Src, j) => ~Matches(Src[i], Src[j], Keys)
Skeleton == [i \in 1..Len(Src) |-> PathElement(Src[i], Src[i].d, Keys)]
Laws == h # <<>> =>
    LET o == h[Len(h)]  R == CopyPath(old, 0, Src, Route(Src, o[1]), o[2] = 1, Keys) IN
    /\ R.ok /\ R.T = T /\ WellNested(T)
    /\ CopyPath(T, 0, Src, Route(Src, o[1]), o[2] = 1, Keys).T = T                           \* copying again adds nothing
    /\ \E j \in 0..Len(old) : T = SubSeq(old, 1, j) \o R.new \o SubSeq(old, j + 1, Len(old))  \* all that was there stays, in order
    /\ Matches(T[R.at], Src[o[1]], Keys) /\ Len(Path(T, R.at)) = Src[o[1]].d
    /\ \A i \in 1..Len(T) : Matches(T[i], T[i], Keys)
Whole == (D # <<>> /\ open = 0 /\ h = <<>>) =>
    /\ CopyPath(<<>>, 0, Src, <<1>>, TRUE, Keys).T = Src
    /\ KeysUnique => All(<<>>, 1) = Skeleton
    /\ Len(All(<<>>, 1)) <= Len(Src)
Emit == (h' # h /\ Len(h') = MaxOps) => PrintT("HX" \o ToString(<<[i \in 1..Len(D) |-> <<D[i].d, D[i].n, D[i].t, [k \in 1..Len(D[i].a) |-> <<D[i].a[k].n, D[i].a[k].v>>]>>], h'>>))
N1 == M!N1  N2 == M!N2  N0 == M!N0  T0 == M!T0  T2 == M!T2  V2 == M!V2  V3 == M!V3
NK == {<<107>>}  NKX == {<<107>>, <<120>>}  TX == {<<>>, <<49>>}
=========================================================================
