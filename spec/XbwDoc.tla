----------------------------- MODULE XbwDoc -----------------------------
(* One shared-memory document (.xbw): its dictionaries, its elements and the lists they form, as pure operators.

   An element belongs to exactly one circular list (field nx is a permutation of the elements); a list is either the
   children (fc) or the attributes (fa) of one owner, or it is loose (just created, removed or joined elements).
   Operators come in pairs  OpOk (may the caller do it)  /  Op (the document after it).                          *)
EXTENDS XbwTypes

HeaderSize == 92
ElemSize == 24
InitialSize == 16384
NoDoc == [st |-> "none"]
FreshDoc(ms) == [st |-> "xbw", T |-> <<>>, P |-> <<>>, Tr |-> FALSE, Pr |-> FALSE, To |-> FALSE, root |-> 0,
                 el |-> <<>>, ms |-> ms, al |-> HeaderSize, fs |-> InitialSize]

El(d) == 1..Len(d.el)
Els(d, h) == d.el[h]

RECURSIVE RingFrom(_, _, _, _)
RingFrom(d, h0, c, acc) == IF d.el[c].nx = h0 \/ Len(acc) > Len(d.el) THEN Append(acc, c) ELSE RingFrom(d, h0, d.el[c].nx, Append(acc, c))
Ring(d, h) == RingFrom(d, h, h, <<>>)
Range(s) == {s[i] : i \in DOMAIN s}
Ch(d, h) == IF d.el[h].fc = 0 THEN <<>> ELSE Ring(d, d.el[h].fc)
At(d, h) == IF d.el[h].fa = 0 THEN <<>> ELSE Ring(d, d.el[h].fa)
Pv(d, h) == LET r == Ring(d, h) IN r[Len(r)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* owner of the list h is in: 0 when the list is loose *)
Owner(d, h) == LET r == Range(Ring(d, h))
                   o == {x \in El(d) : d.el[x].fc \in r \/ d.el[x].fa \in r}
               IN IF o = {} THEN 0 ELSE CHOOSE x \in o : TRUE
RECURSIVE InSubtree(_, _, _)
InSubtree(d, h, x) == \* x is h or below h
    x = h \/ (Owner(d, x) # 0 /\ InSubtree(d, h, Owner(d, x)))
IsRooted(d, h) == d.root # 0 /\ InSubtree(d, d.root, h)

TagType(d, id) == IF d.Tr /\ id >= 0 /\ id < Len(d.T) THEN d.T[id + 1][2] ELSE "UNKNOWN"
AttrType(d, id) == IF d.Pr /\ id >= 0 /\ id < Len(d.P) THEN d.P[id + 1][2] ELSE "UNKNOWN"
SymType(d, h) == IF d.el[h].k = "t" THEN TagType(d, d.el[h].id) ELSE AttrType(d, d.el[h].id)

(* ---- creating elements: type the new element gets, "" when the call must be refused ---- *)
TagFns == {"tag","ptag","str","pstr","blob","hex","i32","pi32","i64","pi64","f","guid","sha1","psha1","time","ptime","t64","data"}
TagStored(d, fn, id) ==
    LET t == TagType(d, id) IN
    CASE fn = "tag" -> "NULL"
      [] fn = "ptag" -> IF t = "NULL" THEN t ELSE ""
      [] fn = "str"   -> IF t \in {"STRING","VARIANT"} THEN "STRING" ELSE IF t = "BLOB_STRING" THEN t ELSE ""
      [] fn = "pstr"  -> IF t = "STRING" THEN t ELSE ""
      [] fn = "blob"  -> IF t \in {"BLOB","VARIANT"} THEN "BLOB" ELSE ""
      [] fn = "hex"   -> IF t = "HEX" THEN t ELSE ""
      [] fn \in {"i32","pi32"} -> IF t \in IS4 THEN t ELSE ""
      [] fn = "i64"   -> IF t \in {"INT64","VARIANT"} THEN "INT64" ELSE ""
      [] fn = "pi64"  -> IF t \in IS8 THEN t ELSE ""
      [] fn = "f"     -> IF t = "FLOAT" THEN t ELSE ""
      [] fn = "guid"  -> IF t = "GUID" THEN t ELSE ""
      [] fn \in {"sha1","psha1"} -> IF t = "SHA1" THEN t ELSE ""
      [] fn = "time"  -> IF t \in {"UNIX_TIME","VARIANT"} THEN "UNIX_TIME" ELSE ""
      [] fn = "ptime" -> IF t = "UNIX_TIME" THEN t ELSE ""
      [] fn = "t64"   -> IF t \in {"UNIX_TIME64_MSEC","VARIANT"} THEN "UNIX_TIME64_MSEC" ELSE ""
      [] fn = "data"  -> IF t \in {"UNKNOWN","VARIANT","BLOB_STRING"} THEN "" ELSE t
AttrFns == {"null","str","str2","blob","hex","i32","u32","i64","u64","f","d","guid","sha1","time","t64","data"}
AttrStored(d, fn, id) ==
    LET t == AttrType(d, id)
        only(x) == IF t = x THEN t ELSE "" IN
    CASE fn = "null" -> only("NULL")
      [] fn \in {"str","str2"} -> only("STRING")
      [] fn = "blob" -> only("BLOB")
      [] fn = "hex" -> only("HEX")
      [] fn = "i32" -> only("INT32")
      [] fn = "u32" -> only("UINT32")
      [] fn = "i64" -> IF t \in IS8 THEN t ELSE ""
      [] fn = "u64" -> only("UINT64")
      [] fn = "f" -> only("FLOAT")
      [] fn = "d" -> only("DOUBLE")
      [] fn = "guid" -> only("GUID")
      [] fn = "sha1" -> only("SHA1")
      [] fn = "time" -> only("UNIX_TIME")
      [] fn = "t64" -> only("UNIX_TIME64_MSEC")
      [] fn = "data" -> IF t \in {"UNKNOWN","VARIANT","BLOB_STRING"} THEN "" ELSE t

(* bytes kept after the element header, for a value of len bytes *)
RECURSIVE Pow2(_, _)
Pow2(s, n) == IF s >= n THEN s ELSE Pow2(2 * s, n)
StrCap(len) == IF len + 1 <= 16 THEN 16 ELSE LET p == Pow2(16, len + 1) IN IF p - p \div 4 >= len + 1 THEN p - p \div 4 ELSE p
ValueSpace(t, len) == CASE t = "STRING" -> len + 1 [] t \in {"BLOB","HEX"} -> 4 + len [] t = "BLOB_STRING" -> 4 + StrCap(len)
                        [] t = "SHA1" -> 20 [] OTHER -> FixedSize(t)
NewEl(d, k, id, t, v, len) ==
    LET h == Len(d.el) + 1 IN
    [k |-> k, id |-> id, t |-> t, v |-> v, len |-> len, cap |-> IF t = "BLOB_STRING" THEN StrCap(len) ELSE len + 1,
     nx |-> h, fc |-> 0, fa |-> 0]
AddEl(d, k, id, t, v, len) == [d EXCEPT !.el = Append(@, NewEl(d, k, id, t, v, len))]

(* ---- lists ---- *)
(* the loose list starting at b is put before a in the list of a *)
JoinOk(d, a, b) == Owner(d, b) = 0 /\ b \notin Range(Ring(d, a)) /\ d.el[a].k = d.el[b].k /\ d.root # b
JoinRings(d, a, b) ==
    LET ap == Pv(d, a)  bp == Pv(d, b) IN
    [d EXCEPT !.el[ap].nx = b, !.el[bp].nx = a]
(* h gets the list starting at c *)
AddOk(d, h, c) == Owner(d, c) = 0 /\ c # d.root /\ ~InSubtree(d, c, h)
                  /\ (\A x \in Range(Ring(d, c)) : ~InSubtree(d, x, h) /\ d.el[x].k = d.el[c].k)
Add(d, h, c) ==
    IF d.el[c].k = "t"
    THEN IF d.el[h].fc = 0 THEN [d EXCEPT !.el[h].fc = c] ELSE JoinRings(d, d.el[h].fc, c)
    ELSE IF d.el[h].fa = 0 THEN [d EXCEPT !.el[h].fa = c] ELSE JoinRings(d, d.el[h].fa, c)
RemOk(d, h, c) == c \in Range(Ch(d, h)) \cup Range(At(d, h))
Unlink(d, c) == LET p == Pv(d, c)  n == d.el[c].nx IN IF n = c THEN d ELSE [d EXCEPT !.el[p].nx = n, !.el[c].nx = c]
Rem(d, h, c) ==
    LET n == d.el[c].nx
        fst(f) == IF f # c THEN f ELSE IF n = c THEN 0 ELSE n IN
    Unlink([d EXCEPT !.el[h].fc = fst(@), !.el[h].fa = fst(@)], c)
(* o, a member of a list of h, is replaced by the single loose element c *)
RepOk(d, h, o, c) == /\ RemOk(d, h, o) /\ c # o /\ Owner(d, c) = 0 /\ d.el[c].nx = c /\ d.el[c].k = d.el[o].k
                     /\ c # d.root /\ ~InSubtree(d, c, h)
Rep(d, h, o, c) ==
    LET p == Pv(d, o)  n == d.el[o].nx
        d1 == IF n = o THEN d ELSE [d EXCEPT !.el[p].nx = c, !.el[c].nx = n, !.el[o].nx = o]
        fst(f) == IF f = o THEN c ELSE f IN
    [d1 EXCEPT !.el[h].fc = fst(@), !.el[h].fa = fst(@)]
(* o is replaced by a new element that takes over its content *)
Renew(d, h, o, t, v, len) ==
    LET c == Len(d.el) + 1
        d1 == Rep(AddEl(d, d.el[o].k, d.el[o].id, t, v, len), h, o, c) IN
    [d1 EXCEPT !.el[c].fc = d.el[o].fc, !.el[c].fa = d.el[o].fa, !.el[o].fc = 0, !.el[o].fa = 0]

FirstChild(d, h, id) == LET s == SelectSeq(Ch(d, h), LAMBDA x : d.el[x].id = id) IN IF s = <<>> THEN 0 ELSE s[1]
FirstAttr(d, h, id) == LET s == SelectSeq(At(d, h), LAMBDA x : d.el[x].id = id) IN IF s = <<>> THEN 0 ELSE s[1]

RetypeOk(d, h, t) == d.el[h].t = t \/ (SizeClass(t) # "-" /\ SizeClass(t) = SizeClass(d.el[h].t))
Retype(d, h, t) == [d EXCEPT !.el[h].t = t]

(* ---- find-or-create setters on a child: "keep" value in place, "new" element, "renew" element, "refuse" ---- *)
SetType(fn) == CASE fn = "i32" -> "INT32" [] fn = "i64" -> "INT64" [] fn = "str" -> "STRING" [] fn = "time" -> "UNIX_TIME" [] fn = "sha1" -> "SHA1"
SetMk(fn) == CASE fn = "i32" -> "pi32" [] fn = "i64" -> "pi64" [] fn = "str" -> "pstr" [] fn = "time" -> "ptime" [] fn = "sha1" -> "psha1"
InPlaceOk(d, c, fn, len) == d.el[c].t = SetType(fn)
(* in place is impossible for a longer string, for the others it is the type that decides *)
SetMust(d, h, fn, id, len) ==
    LET c == FirstChild(d, h, id) IN
    IF c = 0 THEN IF TagStored(d, SetMk(fn), id) = "" THEN "refuse" ELSE "new"
    ELSE IF d.el[c].t = SetType(fn) THEN IF fn = "str" /\ len > d.el[c].len THEN "either" ELSE "keep"
    ELSE IF fn \in {"i32","i64","str"} /\ TagStored(d, SetMk(fn), id) # "" THEN "renew" ELSE "refuse"
PutValue(d, c, v, len) == [d EXCEPT !.el[c].v = v, !.el[c].len = len]

(* ---- dictionary ---- *)
IdOf(L, n) == LET s == {i \in DOMAIN L : L[i][1] = n} IN IF s = {} THEN -1 ELSE (CHOOSE i \in s : \A j \in s : i <= j) - 1
RegName(d, t, n, ty) == \* registration by name
    LET L == IF t = "T" THEN d.T ELSE d.P
        i == IdOf(L, n) IN
    IF i >= 0
    THEN IF t = "T" THEN [d EXCEPT !.T[i + 1][2] = Join(ty, @)] ELSE [d EXCEPT !.P[i + 1][2] = Join(ty, @)]
    ELSE IF t = "T" THEN [d EXCEPT !.T = Append(@, <<n, ty>>), !.Tr = FALSE, !.To = TRUE]
         ELSE [d EXCEPT !.P = Append(@, <<n, ty>>), !.Pr = FALSE]
RegId(d, t, n, ty) == IF t = "T" THEN [d EXCEPT !.T = Append(@, <<n, ty>>), !.Tr = FALSE, !.To = TRUE]
                      ELSE [d EXCEPT !.P = Append(@, <<n, ty>>), !.Pr = FALSE]
AllReg(d) == [d EXCEPT !.Tr = (d.T # <<>>), !.Pr = (d.P # <<>>)]
ClearDoc(d) == [d EXCEPT !.el = <<>>, !.root = 0, !.Tr = (d.T # <<>>), !.Pr = (d.P # <<>>), !.To = TRUE]

(* ---- consistency of a document (invariants of the model) ---- *)
WellFormed(d) ==
    /\ {d.el[h].nx : h \in El(d)} = El(d)                                   \* lists are rings
    /\ \A h \in El(d) : d.el[h].fc # 0 => \A x \in Range(Ch(d, h)) : d.el[x].k = "t"
    /\ \A h \in El(d) : d.el[h].fa # 0 => \A x \in Range(At(d, h)) : d.el[x].k = "a"
    /\ \A h, g \in El(d) : h # g => Range(Ch(d, h)) \cap Range(Ch(d, g)) = {} /\ Range(At(d, h)) \cap Range(At(d, g)) = {}
    /\ \A h \in El(d) : \A x \in Range(Ch(d, h)) : ~InSubtree(d, x, h)
    /\ d.root # 0 => Owner(d, d.root) = 0
    /\ \A i, j \in DOMAIN d.T : d.T[i][1] = d.T[j][1] => i = j
    /\ \A i, j \in DOMAIN d.P : d.P[i][1] = d.P[j][1] => i = j
=========================================================================
