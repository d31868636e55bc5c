---------------------------- MODULE XbwTypes ----------------------------
(* Value types of binary XML: size classes, widening order, conversions.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

TypeNames == <<"NULL","VARIANT","STRING","BLOB","INT32","INT64","FLOAT","DOUBLE","HEX","GUID","SHA1","UNIX_TIME",
               "IPv4","IPv6","UNKNOWN","UINT64","UNIX_TIME64_MSEC","UINT32","UNIX_DATE","INT32_DECI","INT32_CENTI",
               "INT32_MILI","INT32_MICRO","INT32_NANO","BLOB_STRING">>
Types == {TypeNames[i] : i \in 1..Len(TypeNames)}

Scaled == <<"INT32","INT32_DECI","INT32_CENTI","INT32_MILI","INT32_MICRO","INT32_NANO">>
IsScaled(t) == \E i \in 1..6 : Scaled[i] = t
ScaleOf(t) == CHOOSE i \in 1..6 : Scaled[i] = t

IS4 == {"INT32","INT32_DECI","INT32_CENTI","INT32_MILI","INT32_MICRO","INT32_NANO","FLOAT","UNIX_TIME","IPv4","UINT32","UNIX_DATE"}
IS8 == {"INT64","DOUBLE","UNIX_TIME64_MSEC","UINT64"}
VARSZ == {"BLOB","HEX","BLOB_STRING"}
SizeClass(t) == IF t \in IS4 THEN "4" ELSE IF t \in IS8 THEN "8" ELSE IF t \in VARSZ THEN "v" ELSE "-"

(* Widening of types: a join semilattice. Bottoms are the types without values, STRING accumulates everything but
   BLOB_STRING, numbers join to the number type that covers both, all the rest is VARIANT.                       *)
Bottoms == {"NULL","UNKNOWN"}
IsNum(t) == t \in {"INT32","INT64","FLOAT","DOUBLE"}
Join(a, b) ==
    IF a = b THEN a
    ELSE IF "BLOB_STRING" \in {a, b} THEN "BLOB_STRING"
    ELSE IF "STRING" \in {a, b} THEN "STRING"
    ELSE IF "VARIANT" \in {a, b} THEN "VARIANT"
    ELSE IF a \in Bottoms THEN b ELSE IF b \in Bottoms THEN a      \* no value yet: the other one decides (two bottoms: the older one stays)
    ELSE IF IsScaled(a) /\ IsScaled(b) THEN Scaled[IF ScaleOf(a) > ScaleOf(b) THEN ScaleOf(a) ELSE ScaleOf(b)]
    ELSE IF IsNum(a) /\ IsNum(b)
         THEN LET fl == {"FLOAT","DOUBLE"} \cap {a, b} # {}
              IN IF "INT64" \in {a, b} THEN (IF fl THEN "VARIANT" ELSE "INT64") ELSE "DOUBLE"   \* no floating point type keeps all 64 bit numbers, FLOAT not all 32 bit ones
    ELSE "VARIANT"

(* Which stored type may be altered to which one without losing values *)
Convertable(s, d) ==
    \/ s = d
    \/ d = "STRING" /\ s \notin {"BLOB","HEX"}
    \/ d \in {"BLOB","BLOB_STRING"}
    \/ d = "INT32" /\ s \in {"UNIX_TIME","UNIX_DATE"}

(* size of the value for registered types of fixed size *)
FixedSize(t) == IF t \in IS4 THEN 4 ELSE IF t \in IS8 THEN 8 ELSE IF t \in {"GUID","IPv6"} THEN 16 ELSE IF t = "SHA1" THEN 20 ELSE 0

R4(n) == 4 * ((n + 3) \div 4)
(* space of one dictionary entry: id, type, name, NUL *)
EntrySize(n) == R4(3 + Len(n) + 1)
RECURSIVE NamesSize(_)
NamesSize(L) == IF L = <<>> THEN 0 ELSE EntrySize(Head(L)[1]) + NamesSize(Tail(L))
(* Laws of the widening order, checked by TLC (XbwTypesMC.cfg) *)
JoinLaws == /\ \A a, b \in Types : Join(a, b) \in Types /\ (Join(a, b) = Join(b, a) \/ {a, b} \subseteq Bottoms)
            /\ \A a, b, c \in Types : Join(a, Join(b, c)) = Join(Join(a, b), c)
            /\ \A a \in Types : Join(a, a) = a
=========================================================================
