----------------------------- MODULE XbDocMC -----------------------------
(* All small documents: the laws of XbDoc, and scripts for xb_driver (Emit). *)
EXTENDS XbDoc
CONSTANTS Names, Texts, AttrNames, AttrValues, MaxNodes, MaxAttrs, MaxDepth
VARIABLES D, open      \* open: number of elements that are not closed
V == INSTANCE XbwTypes
Init == D = <<>> /\ open = 0
Open(n, t) == /\ Len(D) < MaxNodes /\ (D = <<>> \/ open > 0) /\ open <= MaxDepth
              /\ D' = Append(D, [d |-> open, n |-> n, a |-> <<>>, t |-> t]) /\ open' = open + 1
Attr(n, v) == LET i == Len(D) IN
              /\ D # <<>> /\ open = D[i].d + 1 /\ Len(D[i].a) < MaxAttrs /\ \A k \in 1..Len(D[i].a) : D[i].a[k].n # n
              /\ D' = [D EXCEPT ![i].a = Append(@, [n |-> n, v |-> v])] /\ UNCHANGED open
Close == open > 0 /\ open' = open - 1 /\ UNCHANGED D
Next == (\E n \in Names, t \in Texts : Open(n, t)) \/ (\E n \in AttrNames, v \in AttrValues : Attr(n, v)) \/ Close
Spec == Init /\ [][Next]_<<D, open>>

Whole == D # <<>> /\ open = 0
Structure == Whole =>
    /\ WellNested(D)
    /\ Last(D, 1) = Len(D)
    /\ \A i \in 1..Len(D) : \A j \in 1..Len(D) : (j \in {Kids(D, i)[k] : k \in 1..Len(Kids(D, i))}) <=> (i < j /\ D[j].d > 0 /\ Parent(D, j) = i)
    /\ LET P == Post(D, 1) IN /\ {P[k] : k \in 1..Len(P)} = 1..Len(D) /\ Len(P) = Len(D)
                              /\ \A x, y \in 1..Len(P) : (P[x] < P[y] /\ Last(D, P[x]) >= P[y]) => x > y     \* children before parents
                              /\ \A x, y \in 1..Len(P) : (Last(D, P[x]) < P[y]) => x < y                     \* brothers in order
    /\ \A i \in 1..Len(D) : Len(Path(D, i)) = D[i].d /\ (D[i].d > 0 => Path(D, i)[1] = 1)
Dictionary == Whole =>
    LET L == SortNames(Tags(D) \cup Attrs(D)) IN
    /\ Sorted(L) /\ {L[i] : i \in 1..Len(L)} = Tags(D) \cup Attrs(D)
    /\ \A n \in Names \cup AttrNames \cup {<<>>, <<255>>} : LET k == Search(L, n) IN IF n \in Tags(D) \cup Attrs(D) THEN L[k + 1] = n ELSE k = -1
Packing == Whole =>
    /\ Unpack(Store(D), Slice(D, 1), 0) = D                                       \* sharing is invisible
    /\ \A i, j \in 1..Len(D) : Slice(D, i) = Slice(D, j) => \A k \in 0..(Last(D, i) - i) : Slice(D, i + k) = Slice(D, j + k)
    /\ Cardinality(DOMAIN Store(D)) <= Len(D)
(* types: the order of values does not matter *)
RECURSIVE Sel(_, _)
Sel(i, R) == IF i > Len(D) THEN R ELSE Sel(i + 1, IF D[i].t = <<>> THEN R ELSE Append(R, [v |-> D[i].t, dt |-> DetectCanon(D[i].t)]))
TypeLaw == Whole => LET S == Sel(1, <<>>) IN
    /\ TypeOf(Rev(S)) = TypeOf(S)
    /\ \A i \in 1..Len(S) : LET ty == TypeOf(S) IN ty \in {"VARIANT", "STRING"} \/ Fits(ty, S[i].v)
JoinLaw == V!JoinLaws


Emit == (open' = 0 /\ D' # <<>>) => PrintT("HX" \o ToString([i \in 1..Len(D') |-> <<D'[i].d, D'[i].n, D'[i].t, [k \in 1..Len(D'[i].a) |-> <<D'[i].a[k].n, D'[i].a[k].v>>]>>]))
(* instances of the constants *)
N1 == {<<97>>}  N2 == {<<97>>, <<98>>}  NN == {<<97>>, <<97, 98>>, <<98>>}  N0 == {}
T0 == {<<>>}  T2 == {<<>>, <<53, 48, 48, 48, 48, 48, 48, 48, 48, 48>>}  T3 == {<<>>, <<49>>, <<53, 48, 48, 48, 48, 48, 48, 48, 48, 48>>}
V2 == {<<>>, <<49>>}  V3 == {<<>>, <<49>>, <<120>>}
TV == {<<49>>, <<120>>, <<49, 46, 53>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<45, 49>>, <<49, 46, 50, 53>>, <<50, 48, 50, 48, 45, 48, 49, 45, 48, 49>>, <<>>, <<49, 46, 48, 48, 48>>,
       <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<49, 46, 48, 48, 48, 48, 48, 48, 48, 48, 49>>, <<53, 48, 48, 48, 48, 48, 48, 48, 48, 48>>, <<49, 46, 49, 46, 49, 46, 49>>}
=========================================================================
