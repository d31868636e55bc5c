--------------------------- MODULE XbwProfiles ---------------------------
(* Bounds under which XbwGen is explored: one profile per aspect.  A setup call [n |-> "mk", ..., new |-> h] makes
   element h.                                                                                                    *)
EXTENDS XbwGen

Rg(p, TT, PP) ==
    [i \in 1..Len(TT) |-> [n |-> "rtid", p |-> p, id |-> i - 1, nm |-> TT[i][1], ty |-> TT[i][2]]]
    \o [i \in 1..Len(PP) |-> [n |-> "raid", p |-> p, id |-> i - 1, nm |-> PP[i][1], ty |-> PP[i][2]]]
    \o <<[n |-> "allreg", p |-> p]>>
Opn(p, f, m) == <<[n |-> "open", p |-> p, f |-> f, max |-> m, new |-> 0]>>
Reg(p, f, m, TT, PP) == Opn(p, f, m) \o Rg(p, TT, PP)
MkRoot(p) == <<[n |-> "mk", p |-> p, fn |-> "tag", id |-> 0, v |-> "x:", len |-> 0, new |-> 1], [n |-> "root", p |-> p, h |-> 1]>>
None == {}
Zero == {0}
TwoFiles == {0, 1}
TwoSlots == {0, 1}
AllTypeSet == Types

(* C01: lists. Structure only. *)
RingSetup == Reg(0, 0, 131072, <<<<"a","NULL">>, <<"b","INT32">>>>, <<<<"x","INT32">>>>)
ConvRing == RingSetup \o MkRoot(0)
RingKinds == {"mk","at","add","join","rem","rep","root"}
RingMk == {<<"tag", 0, "x:", 0>>}
RingAt == {<<"i32", 0, "i:7", 4>>}
(* C01: finding and re-valuing elements *)
SetTags == <<<<"a","NULL">>, <<"b","INT32">>, <<"s","STRING">>, <<"q","BLOB_STRING">>, <<"l","INT64">>, <<"t","UNIX_TIME">>, <<"h","SHA1">>, <<"v","VARIANT">>>>
SetAttrs == <<<<"x","INT32">>, <<"y","STRING">>>>
SetSetup == Reg(0, 0, 131072, SetTags, SetAttrs) \o MkRoot(0)
SetKinds == {"mk","add","rem","find","set","sets","probe"}
SetMk1 == {<<"tag", 1, "x:", 0>>, <<"i32", 1, "i:5", 4>>}
SetSet1 == {<<"i32", 1, "i:6", 4>>, <<"i32", 2, "i:7", 4>>, <<"str", 2, "s:abc", 3>>, <<"str", 2, "s:abcdefghijkl", 12>>, <<"i64", 4, "i:-9", 8>>}
SetStr1 == {<<"s:abc", 3>>, <<"s:abcdefghijklm", 13>>, <<"s:", 0>>}
SetFind == {0, 2}
(* C01: long histories *)
LongKinds == {"mk","at","add","join","rem","rep","find","set","sets","probe","byval"}
LongMk == {<<"tag", 0, "x:", 0>>, <<"i32", 1, "i:1", 4>>, <<"str", 2, "s:u", 1>>, <<"str", 3, "s:w", 1>>}
LongAt == {<<"i32", 0, "i:1", 4>>, <<"i32", 0, "i:2", 4>>, <<"str", 1, "s:k", 1>>}
LongSet == {<<"i32", 1, "i:8", 4>>, <<"str", 2, "s:abcd", 4>>, <<"str", 2, "t:40:3", 40>>, <<"i64", 4, "i:4", 8>>, <<"time", 5, "i:77", 4>>, <<"sha1", 6, "b:20:5", 20>>}
LongStr == {<<"s:z", 1>>, <<"t:30:1", 30>>, <<"t:300:2", 300>>}
LongVal == {<<0, "INT32", "i:1">>, <<0, "INT32", "i:2">>, <<1, "STRING", "s:k">>, <<1, "STRING", "s:kk">>}

(* C02: every function over every registered type *)
AllTypes == [i \in 1..Len(TypeNames) |-> <<"n" \o ToString(i), TypeNames[i]>>]
ValSetup == Reg(0, 0, 262144, AllTypes, AllTypes) \o MkRoot(0)
Ids == 0..(Len(TypeNames) - 1)
Texts == {<<"s:", 0>>, <<"s:a", 1>>, <<"s:abc", 3>>, <<"s:abcd", 4>>, <<"s:abcdefghijklmno", 15>>, <<"s:abcdefghijklmnop", 16>>, <<"t:100:1", 100>>, <<"t:5000:2", 5000>>, <<"s:%c5%99%ff", 3>>}
Bins == {<<"b:0:1", 0>>, <<"b:1:1", 1>>, <<"b:3:1", 3>>, <<"b:4:1", 4>>, <<"b:5:2", 5>>, <<"x:00000000", 4>>, <<"b:257:3", 257>>, <<"b:6000:4", 6000>>}
I32s == {<<"i:0", 4>>, <<"i:-1", 4>>, <<"i:2147483647", 4>>, <<"i:-2147483648", 4>>, <<"i:305419896", 4>>}
I64s == {<<"i:0", 8>>, <<"i:-1", 8>>, <<"i:9223372036854775807", 8>>, <<"i:-9223372036854775808", 8>>, <<"i:4294967296", 8>>}
U64s == {<<"u:18446744073709551615", 8>>, <<"u:9223372036854775808", 8>>}
Dbls == {<<"d:0", 8>>, <<"d:-1.5", 8>>, <<"d:1e300", 8>>, <<"d:0.1", 8>>}
Flts == {<<"d:0", 4>>, <<"d:-1.5", 4>>, <<"d:3.4e38", 4>>, <<"d:0.1", 4>>}
Times == {<<"i:0", 4>>, <<"i:1", 4>>, <<"i:2147483647", 4>>, <<"i:1700000000", 4>>}
B16 == {<<"b:16:7", 16>>, <<"x:00000000000000000000000000000000", 16>>}
B20 == {<<"b:20:7", 20>>, <<"x:ffffffffffffffffffffffffffffffffffffffff", 20>>}
Nil == {<<"x:", 0>>}
FnVals(fn) == CASE fn \in {"tag","ptag","null"} -> Nil
    [] fn \in {"str","pstr","str2"} -> Texts [] fn \in {"blob","hex","data"} -> Bins
    [] fn \in {"i32","pi32","u32"} -> I32s [] fn \in {"i64","pi64","t64"} -> I64s [] fn = "u64" -> U64s
    [] fn = "f" -> Flts [] fn = "d" -> Dbls [] fn = "guid" -> B16 [] fn \in {"sha1","psha1"} -> B20 [] fn \in {"time","ptime"} -> Times
One(Sx) == {CHOOSE x \in Sx : TRUE}
(* all values where the type fits, one value where it does not *)
ValMk == UNION {LET d == [FreshDoc(0) EXCEPT !.T = AllTypes, !.Tr = TRUE] IN
                {<<fn, i, v[1], v[2]>> : v \in IF TagStored(d, fn, i) = "" THEN One(FnVals(fn)) ELSE FnVals(fn)} : fn \in TagFns \ {"data"}, i \in Ids}
ValAt == UNION {LET d == [FreshDoc(0) EXCEPT !.P = AllTypes, !.Pr = TRUE] IN
                {<<fn, i, v[1], v[2]>> : v \in IF AttrStored(d, fn, i) = "" THEN One(FnVals(fn)) ELSE FnVals(fn)} : fn \in AttrFns \ {"data"}, i \in Ids}
DatAt == {<<"data", i, v[1], v[2]>> : i \in Ids, v \in {<<"b:20:9", 20>>}} \cup {<<"data", i, v[1], v[2]>> : i \in {2, 3, 8}, v \in {<<"x:", 0>>, <<"x:6162", 2>>, <<"x:414243444546", 6>>}}
ValMk1 == ValMk \cup DatAt
ValAt1 == ValAt \cup DatAt
ValKinds == {"mk","at"}
RoKinds == {"mk","at","probe"}
(* one element per function and type, then reading, re-typing and writing through *)
UseMk == {<<fn, i, (CHOOSE v \in FnVals(fn) : v[2] > 0 \/ fn \in {"tag","ptag"})[1], (CHOOSE v \in FnVals(fn) : v[2] > 0 \/ fn \in {"tag","ptag"})[2]>> : fn \in TagFns \ {"data"}, i \in Ids}
UseAt == {<<fn, i, (CHOOSE v \in FnVals(fn) : v[2] > 0 \/ fn = "null")[1], (CHOOSE v \in FnVals(fn) : v[2] > 0 \/ fn = "null")[2]>> : fn \in AttrFns \ {"data"}, i \in Ids}
UseKinds == {"mk","at","probe","retype","wr"}
UseWr == {<<"i32", "i:-5">>, <<"i64", "i:-6">>, <<"u64", "u:18446744073709551614">>, <<"f", "d:2.5">>}
LifeKinds2 == {"mk","at","add","rem","set","sets","wr","retype","probe"}
(* setting children over every type *)
SetVals(fn) == CASE fn = "str" -> {<<"s:", 0>>, <<"s:ab", 2>>, <<"s:abc", 3>>, <<"s:abcdefgh", 8>>, <<"t:60:4", 60>>} [] fn = "i32" -> {<<"i:0", 4>>, <<"i:-7", 4>>}
                 [] fn = "i64" -> {<<"i:0", 8>>, <<"i:-4294967297", 8>>} [] fn = "time" -> {<<"i:0", 4>>, <<"i:1700000001", 4>>}
                 [] fn = "sha1" -> {<<"b:20:1", 20>>, <<"b:20:2", 20>>}
SetAll == UNION {{<<fn, i, v[1], v[2]>> : v \in SetVals(fn)} : fn \in {"str","i32","i64","time","sha1"}, i \in Ids}
StrAll == {<<"s:", 0>>, <<"s:ab", 2>>, <<"s:abcdefghijkl", 12>>, <<"s:abcdefghijklmnopqrst", 20>>, <<"t:60:4", 60>>, <<"t:61:4", 61>>}
SetAllKinds == {"set","sets","mk","add"}
StrMk == {<<"str", 2, "s:hello", 5>>, <<"str", 24, "s:hello", 5>>, <<"str", 1, "s:hello", 5>>, <<"i32", 4, "i:3", 4>>, <<"tag", 0, "x:", 0>>, <<"tag", 2, "x:", 0>>, <<"pi64", 5, "i:3", 8>>}

(* C03: growth. Sizes around alignment, page and step boundaries; small maximal sizes *)
GrowTags == <<<<"a","NULL">>, <<"s","STRING">>, <<"b","BLOB">>, <<"q","BLOB_STRING">>, <<"l","INT64">>, <<"i","INT32">>, <<"g","GUID">>>>
GrowAttrs == <<<<"x","INT32">>, <<"y","STRING">>, <<"z","BLOB">>, <<"w","INT64">>, <<"u","NULL">>, <<"k","DOUBLE">>>>
GrowSetup(m) == Reg(0, 0, m, GrowTags, GrowAttrs) \o MkRoot(0)
Grow24 == GrowSetup(24576)
Grow32 == GrowSetup(32768)
Grow48 == GrowSetup(49152)
Grow128 == GrowSetup(131072)
Grow1M == GrowSetup(1048576)
SmallLens == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 23, 31, 47, 48, 49}
BigLens == {500, 1000, 2040, 4000, 4072, 4095, 4096, 4097, 8000, 8192, 12000, 16000, 16383, 16384, 16385}
HugeLens == {20000, 32768, 40000, 65536, 100000, 200000}
Tx(n) == "t:" \o ToString(n) \o ":" \o ToString(n % 7)
Bx(n) == "b:" \o ToString(n) \o ":" \o ToString(n % 5)
LenMk(L) == {<<"str", 1, Tx(n), n>> : n \in L} \cup UNION {{<<"data", 1, Tx(n), n>>, <<"data", 2, Bx(n), n>>} : n \in {x \in L : x <= 17}} \cup {<<"blob", 2, Bx(n), n>> : n \in L} \cup {<<"str", 3, Tx(n), n>> : n \in L}
LenAt(L) == {<<"str", 1, Tx(n), n>> : n \in L} \cup UNION {{<<"data", 1, Tx(n), n>>, <<"data", 2, Bx(n), n>>} : n \in {x \in L : x <= 17}} \cup {<<"blob", 2, Bx(n), n>> : n \in L}
FixMk == {<<"tag", 0, "x:", 0>>, <<"i64", 4, "i:77", 8>>, <<"i32", 5, "i:78", 4>>, <<"guid", 6, "b:16:1", 16>>}
FixAt == {<<"i32", 0, "i:1", 4>>, <<"i64", 3, "i:2", 8>>, <<"null", 4, "x:", 0>>, <<"d", 5, "d:2.25", 8>>}
GrowMk == LenMk(SmallLens \cup BigLens) \cup FixMk
GrowAt == LenAt(SmallLens \cup BigLens) \cup FixAt
HugeMk == LenMk(BigLens \cup HugeLens) \cup FixMk
HugeAt == LenAt(BigLens \cup HugeLens) \cup FixAt
SmallMk == LenMk(SmallLens) \cup FixMk
SmallAt == LenAt(SmallLens) \cup FixAt
GrowKinds == {"mk","at","add","sets","set","find","rt","ra","rem","obs","clear","allreg","reinit"}
FillKinds == {"mk","at","add","obs"}
GrowSet == {<<"str", 1, Tx(n), n>> : n \in {3, 30, 300, 3000, 9000}} \cup {<<"i64", 4, "i:4", 8>>, <<"i32", 5, "i:4", 4>>}
GrowStr == {<<Tx(n), n>> : n \in {0, 5, 50, 500, 5000}}
GrowNames == {"nm" \o ToString(i) : i \in 1..12} \cup {"a-name-that-is-rather-long-to-use-the-space-" \o ToString(i) : i \in 1..30}
GrowTypes == {"NULL", "STRING"}
GrowFind == {0, 1}

(* C04: dictionaries *)
DictSetup == Opn(0, 0, 131072)
DictKinds == {"rt","ra","rtid","raid","alt","ala","allreg","reinit"}
DictNames == {"a", "b"}
DictTypes == {"INT32", "STRING"}
DictTypes3 == {"INT32", "INT64", "BLOB_STRING"}
DictAlt == {0, 1}
JoinKinds == {"rt","ra"}
AltKinds == {"rt","ra","alt","ala"}
OneName == {"a"}
DictNamesL == {"n" \o ToString(i) : i \in 1..150} \cup {"a", "aa", "aaa", "Aa", "a-b", "x:y", "%c5%99", "averyveryveryveryveryverylongname", "%20"}
DictKindsL == {"rt","ra","alt","ala","allreg","mk","at","obs","reinit","imp","probe"}
DictMkL == {<<"tag", i, "x:", 0>> : i \in 0..140}
DictAtL == UNION {{<<"i32", i, "i:3", 4>>, <<"str", i, "s:q", 1>>} : i \in 0..140}
DictAltL == 0..140
Impts == { <<"<r%20x=%221%22><n1>abc</n1><n2>5</n2></r>", <<<<"n1","STRING">>, <<"n2","INT32">>, <<"r","NULL">>>>, <<<<"x","INT32">>>>>>,
           <<"<zz%20yy=%22a%22%20xx=%221%22><a/><b%20n3=%221.5%22/></zz>", <<<<"a","NULL">>, <<"b","NULL">>, <<"zz","NULL">>>>, <<<<"n3","INT32_DECI">>, <<"xx","INT32">>, <<"yy","STRING">>>>>>,
           <<"<only/>", <<<<"only","NULL">>>>, <<>>>> }

(* C05: processes *)
ProcSetup == Opn(0, 0, 65536)
ProcKinds == {"open","close","reinit","kill","peek","rtid","raid","allreg","mk","root","at"}
ProcMk == {<<"i32", 0, "i:7", 4>>}
ProcAt == {<<"str", 0, "s:abc", 3>>}
ProcNames == {"a", "b"}
ProcTypes == {"INT32", "STRING"}
ProcMax == {65536}
JunkKinds == {"open","close","mkfile","patch","resize","peek","rtid","kill"}
JunkVals == {"%", "x", "<xml/>", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"}
JunkPatches == {<<4, 1>>, <<4, -1>>, <<28, 1>>, <<28, 7>>, <<32, 0>>, <<32, 4096>>, <<32, -1>>, <<32, 1073741824>>, <<36, 0>>, <<36, 8192>>, <<36, -5>>,
                <<52, 0>>, <<52, 91>>, <<52, -1>>, <<52, 1073741824>>, <<56, 0>>, <<56, 8192>>, <<56, -1>>}
LifeKinds == {"open","close","reinit","kill","peek","rt","ra","allreg","mk","root","at","add","rem","set","sets","wr","clear","obs","find","alt"}
LifeSetup == Reg(0, 0, 131072, GrowTags, GrowAttrs) \o MkRoot(0)
LifeMax == {131072, 65536}
LifeWr == {<<"i32", "i:-5">>, <<"i64", "i:-6">>}

(* C06: clearing *)
ClrSetup == Opn(0, 0, 65536)
ClrKinds == {"rt","ra","allreg","mk","at","root","clear","dsize"}
ClrMk == {<<"i32", 0, "i:7", 4>>, <<"str", 1, "s:abcdefg", 7>>}
ClrAt == {<<"i32", 0, "i:1", 4>>, <<"str", 1, "s:abc", 3>>}
ClrNames == {"a", "b"}
ClrTypes == {"INT32", "STRING"}
ClrKindsL == {"rt","ra","allreg","mk","at","root","clear","dsize","add","set","sets","rem","reinit","kill","open","peek","obs"}

(* C07: several documents *)
ManySetup == Opn(0, 0, 65536) \o <<[n |-> "rtid", p |-> 0, id |-> 0, nm |-> "a", ty |-> "INT32"], [n |-> "allreg", p |-> 0]>>
ManyKinds == {"open","close","mk","rt"}
ManySlots == {0, 1, 2}
ManyFiles == {0, 1, 2}
ManyMk == {<<"i32", 0, "i:7", 4>>}
ManyKindsL == {"open","close","mk","rt","ra","allreg","at","add","set","sets","find","rem","clear","root","obs","reinit","peek"}
ManySlotsL == 0..5
ManySlotsX == 0..35
ManyKindsX == {"open","close","mk","rt","obs"}
ManyTypes == {"INT32"}
ManyNames == {"a"}

(* C19: conversion into binary documents and printing: attributes and children of every type and value *)
ConvTexts == {<<"s:", 0>>, <<"s:a", 1>>, <<"s:abc", 3>>, <<"s:a<b&c>%22'", 9>>, <<"s:%20x%20", 3>>, <<"s:%c5%99e", 3>>, <<"s:]]>", 3>>, <<"s:12", 2>>, <<"s:&amp;&lt;&#65;<!--x-->", 22>>, <<"s:<![CDATA[x]]>", 13>>, <<"t:100:1", 100>>, <<"t:4096:3", 4096>>, <<"t:5000:2", 5000>>}
ConvVals(fn) == IF fn \in {"str","pstr","str2"} THEN ConvTexts ELSE FnVals(fn)
ConvMk == UNION {LET d == [FreshDoc(0) EXCEPT !.T = AllTypes, !.Tr = TRUE] IN
                 {<<fn, i, v[1], v[2]>> : v \in IF TagStored(d, fn, i) = "" THEN {} ELSE ConvVals(fn)} : fn \in {"tag","str","blob","hex","i32","pi32","i64","pi64","f","guid","sha1","time","t64"}, i \in Ids}
ConvAt == UNION {LET d == [FreshDoc(0) EXCEPT !.P = AllTypes, !.Pr = TRUE] IN
                 {<<fn, i, v[1], v[2]>> : v \in IF AttrStored(d, fn, i) = "" THEN {} ELSE ConvVals(fn)} : fn \in {"null","str","blob","hex","i32","u32","i64","u64","f","d","guid","sha1","time","t64"}, i \in Ids} \cup {x \in DatAt : x[2] # 13}   \* texts of IPv6 addresses are not implemented
ConvAtL == {x \in ConvAt : x[1] # "data"}
ConvSetup == Reg(0, 0, 262144, AllTypes, AllTypes)
ConvAtKinds == {"at"}
ConvMkKinds == {"mk","add","root"}
ConvKinds == {"mk","at","add","join","rem","rep","root","set","sets","wr","retype","conv","rt","ra","allreg","clear"}
ConvNames == {"zz", "aa", "n", "n1", "B-c", "n5x", "x.y"}
ConvRetype == {"STRING","BLOB_STRING","INT32","UINT32","INT64","DOUBLE","UNIX_TIME","UNIX_DATE","INT32_CENTI","FLOAT"}

(* C14: documents that grow by appended elements *)
Mk(h, id) == <<[n |-> "mk", p |-> 0, fn |-> "tag", id |-> id, v |-> "x:", len |-> 0, new |-> h]>>
Ad(h, c) == <<[n |-> "add", p |-> 0, h |-> h, c |-> c]>>
MkXbw(k) == <<[n |-> "mkxb", p |-> 0, k |-> k]>>
Grown1(k) == RingSetup \o MkRoot(0) \o Mk(2, -9) \o Ad(1, 2) \o MkXbw(k)                                          \* <a><et-tecera/></a>
GrownU == Grown1("u")
GrownP == Grown1("p")
GrownC == Grown1("c")
GrownDeep == RingSetup \o MkRoot(0) \o Mk(2, 0) \o Ad(1, 2) \o Mk(3, 0) \o Ad(2, 3) \o Mk(4, -9) \o Ad(2, 4) \o Mk(5, 0) \o Ad(2, 5) \o Mk(6, -9) \o Ad(1, 6) \o MkXbw("p")
GrownNot == RingSetup \o MkRoot(0) \o MkXbw("u")
AppKinds == {"mk","at","add","join","app"}
AppMk == {<<"tag", 0, "x:", 0>>, <<"tag", -9, "x:", 0>>}
AppSetup == ValSetup \o Mk(2, -9) \o Ad(1, 2)
AppMkL == ConvMk \cup {<<"tag", -9, "x:", 0>>}
AppSetupX(k) == AppSetup \o MkXbw(k)
AppSetupU == AppSetupX("u")
AppSetupP == AppSetupX("p")
AppKindsA == {"mk","at","add","join","set","wr","app","appl","clear8"}
AppKindsL == {"mk","at","add","join","rem","set","sets","wr","mkxb","app","appl","rt","ra","allreg"}
AppSpaces == {0, 1, 15, 40, 100, 300, 2000, 5000}
==========================================================================
