----------------------------- MODULE JsonMC -----------------------------
(* All short texts of JSON lexemes: laws of JsonDoc, and scripts for xb_driver (Emit). *)
EXTENDS JsonDoc
CONSTANTS MaxLex, Words0, Keys0
VARIABLES t, m, k, e
LX == {<<123>>, <<125>>, <<91>>, <<93>>, <<58>>, <<44>>} \cup Words0
Init == t = <<>> /\ m = 0 /\ k = <<>> /\ e = ""
Next == m < MaxLex /\ \E x \in LX : t' = t \o x /\ m' = m + 1 /\ UNCHANGED <<k, e>>
Spec == Init /\ [][Next]_<<t, m, k, e>>
Laws == t # <<>> =>
    /\ IsJson(t) => ~Refused(t) /\ WellNested(Tree(t))
    /\ ~Refused(t) => LET D == Tree(t) IN
          Len(D) = Cardinality({i \in 1..Len(Toks(t).st.tk) : ~Key(Toks(t).st.tk, i)})       \* an element for every value
Emit == (t' # <<>>) => PrintT("HX" \o ToString(<<IF Refused(t') THEN 0 ELSE IF IsJson(t') THEN 1 ELSE 2, t', <<>>, IF Refused(t') \/ ~IsJson(t') THEN <<>> ELSE LET D == Tree(t') IN [i \in 1..Len(D) |-> <<D[i].d, D[i].n, D[i].t, <<>>>>]>>))
(* only texts that are JSON: w what is written, k stack of open containers, e what can follow: v value, f first of a
   container (or its end), n name, c comma or end of the container *)
InitV == t = <<>> /\ m = 0 /\ k = <<>> /\ e = "v"
Put(x) == t' = t \o x /\ m' = m + 1
Up(s0) == IF s0 = <<>> THEN "x" ELSE "c"
Top == k[Len(k)]
CanValue == e = "v" \/ (e = "f" /\ Top = 91)
NextV == m < MaxLex /\
    \/ \E x \in Words0 : CanValue /\ Put(x) /\ e' = Up(k) /\ UNCHANGED k
    \/ \E c \in {123, 91} : CanValue /\ Put(<<c>>) /\ k' = Append(k, c) /\ e' = "f"
    \/ \E x \in Keys0 : (e = "n" \/ (e = "f" /\ Top = 123)) /\ Put(x \o <<58>>) /\ e' = "v" /\ UNCHANGED k
    \/ e = "c" /\ Put(<<44>>) /\ e' = (IF Top = 123 THEN "n" ELSE "v") /\ UNCHANGED k
    \/ e \in {"f", "c"} /\ Put(<<Top + 2>>) /\ k' = SubSeq(k, 1, Len(k) - 1) /\ e' = Up(k')
SpecV == InitV /\ [][NextV]_<<t, m, k, e>>
LawsV == (e = "x") <=> (t # <<>> /\ IsJson(t))
EmitV == e' = "x" => Emit
K2 == {<<34, 97, 115, 34>>, <<34, 98, 34>>}
K3 == {<<34, 97, 115, 34>>, <<34, 98, 34>>, <<34, 99, 76, 105, 115, 116, 34>>}
W1 == {<<49>>}  V2W == {<<49>>, <<34, 120, 34>>}
W2 == {<<34, 97, 115, 34>>, <<49>>}
W4 == {<<34, 97, 115, 34>>, <<49>>, <<34, 34>>, <<34, 98, 34>>}
=========================================================================
