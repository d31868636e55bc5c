----------------------------- MODULE SortGen -----------------------------
(* every array of the model, and random ones *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLen, Keys, Mode
VARIABLES a, n
Init == a = <<>> /\ n = IF Mode = "sim" THEN RandomElement(0..MaxLen) ELSE 0
Next == \/ Mode = "cover" /\ Len(a) < MaxLen /\ (\E k \in Keys : a' = Append(a, k)) /\ UNCHANGED n
        \/ Mode = "sim" /\ Len(a) < n /\ a' = Append(a, RandomElement(Keys)) /\ UNCHANGED n
        \/ Mode = "sim" /\ Len(a) = n /\ n' = -1 /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, n>>
Emit == (Mode = "cover" \/ n' = -1) => PrintT("HA" \o ToString(a'))
K3 == {0, 1, 2}
K5 == 0..4
K4 == 0..3
K7 == 0..7
K250 == 0..250
=========================================================================
