----------------------------- MODULE SortAlg -----------------------------
(* Both algorithms as state machines over every array of the model: the merge sort pass by pass, the quick sort
   exchange by exchange (Hoare's partition with a copied pivot; the pivot is any element of the segment).             *)
EXTENDS Sort, TLC
CONSTANTS MaxLen, Keys, Modes
VARIABLES alg, mode, keys, s, m, segs, part
vars == <<alg, mode, keys, s, m, segs, part>>
NoPart == [lo |-> 0]
Init == /\ alg \in {"merge", "quick"} /\ mode \in Modes /\ keys \in UNION {[1..n -> Keys] : n \in 0..MaxLen}
        /\ s = Input(keys) /\ m = 1 /\ part = NoPart
        /\ segs = IF alg = "quick" /\ Len(keys) > 1 THEN {<<1, Len(keys)>>} ELSE {}
MStep == alg = "merge" /\ m < Len(s) /\ s' = Pass(mode, s, m, 1) /\ m' = 2 * m /\ UNCHANGED <<alg, mode, keys, segs, part>>
QStart == \E g \in segs : \E p \in g[1]..g[2] : part = NoPart /\ part' = [lo |-> g[1], hi |-> g[2], l |-> g[1], r |-> g[2], piv |-> s[p]]
          /\ segs' = segs \ {g} /\ UNCHANGED <<alg, mode, keys, s, m>>
Lt(a, b) == ~Le(mode, b, a)
More(a, b) == IF a < b THEN {<<a, b>>} ELSE {}
QStep == /\ part # NoPart
         /\ LET p == part IN
            IF p.l <= p.r /\ Lt(s[p.l], p.piv) THEN part' = [p EXCEPT !.l = @ + 1] /\ UNCHANGED <<s, segs>>
            ELSE IF p.l <= p.r /\ Lt(p.piv, s[p.r]) THEN part' = [p EXCEPT !.r = @ - 1] /\ UNCHANGED <<s, segs>>
            ELSE IF p.l <= p.r THEN s' = Swap(s, p.l, p.r) /\ part' = [p EXCEPT !.l = @ + 1, !.r = @ - 1] /\ UNCHANGED segs
            ELSE part' = NoPart /\ segs' = segs \cup More(p.lo, p.r) \cup More(p.l, p.hi) /\ UNCHANGED s
         /\ UNCHANGED <<alg, mode, keys, m>>
Next == MStep \/ QStart \/ QStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == (alg = "merge" /\ m >= Len(s)) \/ (alg = "quick" /\ segs = {} /\ part = NoPart)
Perm == Permutation(Input(keys), s)
Sorted == Done => IF alg = "merge" THEN GoodMerge(mode, keys, s) /\ s = StableOf(mode, Input(keys)) ELSE GoodSort(mode, keys, s)
(* after every pass of the merge sort each run of length m is the stable order of its part of the input *)
Runs == alg = "merge" => \A b \in 0..((Len(s) - 1) \div m) : LET lo == b * m + 1  hi == Minn(lo + m - 1, Len(s)) IN SubSeq(s, lo, hi) = StableOf(mode, SubSeq(Input(keys), lo, hi))
InSeg == part # NoPart => part.l <= part.hi + 1 /\ part.r >= part.lo - 1
Ends == <>Done
K3 == {0, 1, 2}
K2 == {0, 1}
AllModes == {"up", "down", "par", "flat"}
UpMode == {"up"}
=========================================================================
