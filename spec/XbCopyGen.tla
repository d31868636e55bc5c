---------------------------- MODULE XbCopyGen ----------------------------
(* Two random documents, the second one mostly a changed copy of the first, random keys and copies. *)
EXTENDS XbDocGen
RECURSIVE Changed(_, _, _)
Changed(S, m, k) == IF m = 0 THEN S ELSE Changed(Change(S, k), m - 1, k + 13)
ANames(X) == UNION {{X[i].a[k].n : k \in 1..Len(X[i].a)} : i \in 1..Len(X)}
Shown(X) == [i \in 1..Len(X) |-> <<X[i].d, X[i].n, X[i].t, [k \in 1..Len(X[i].a) |-> <<X[i].a[k].n, X[i].a[k].v>>]>>]
RECURSIVE Listed(_)
Listed(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o Listed(X \ {x})
CEmit == n' > 0 =>
    LET A == RDoc(1 + (R(0) % MaxLen), <<>>)
        B == IF R(5) % 8 = 0 THEN RDoc(1 + (R(6) % MaxLen), <<A[1]>>) ELSE Changed(A, R(7) % 5, 900)
        K == {x \in ANames(A) \cup ANames(B) : (R(8) + (x[Len(x)] * 7) + Len(x)) % 3 # 0}
        num == 1 + (R(9) % 9)
        O == [i \in 1..num |-> LET w == R(20 + i) % 2 IN <<w, 1 + (R(40 + i) % Len(IF w = 0 THEN A ELSE B)), R(60 + i) % 2>>] IN
    PrintT("HX" \o ToString(<<R(3) % 4096, Shown(A), R(4) % 4096, Shown(B), Listed(K), R(10) % 8, O>>))
CSpec == Init /\ [][DNext]_<<s, r, n>>
=========================================================================
