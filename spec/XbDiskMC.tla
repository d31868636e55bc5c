----------------------------- MODULE XbDiskMC -----------------------------
(* All histories of puts, conversions (any of them may run out of space) and openings; laws of the specification; the
   histories are emitted for the real code.                                                                        *)
EXTENDS XbDisk
CONSTANTS Sources, Targets, Kinds, Puts, Lims, MaxOps, Mode, Rand, Same   \* Same: one put, then only its file is a source
VARIABLES K, h
SrcXml == {<<"a", ".xml">>, <<"./", "d.x/", "a", ".xml">>}
SrcAll == {<<"a", ".xml">>, <<"a", ".json">>, <<"a", ".xbw">>, <<"d.x/", "a", ".v1", ".xml">>, <<"d/", "a", ".wsdl">>, <<"a", ".txt">>}
SrcMany == {Append(p, x) : p \in {<<"a">>, <<"./", "a">>, <<"./", "./", "d/", "a">>, <<"d.x/", "a">>, <<"a", ".v1">>, <<"d.x/", "a", ".xml">>, <<"no/", "a">>, <<"b">>}, x \in Exts} \cup {<<"a">>, <<"d.x/", "a">>}
SrcWeb == {<<"a", ".xml">>, <<"a", ".xbw">>, <<"b", ".xbw">>, <<"./", "a", ".xbw">>}
TgtWeb == {<<>>, <<"b", ".xbw">>, <<"a", ".xb">>, <<"d.x/", "b">>}
PutXml == {<<"xml", 0>>, <<"xml", 1>>, <<"xml", 2>>, <<"xml", 3>>, <<"xml", 4>>}
DefT == {<<>>}
TgtFew == {<<>>, <<"b", ".xb">>, <<"d.x/", "b">>, <<"no/", "b", ".xb">>}
TgtMany == {<<>>} \cup {Append(p, x) : p \in {<<"a">>, <<"b">>, <<"./", "d.x/", "b">>, <<"d/", "b", ".v1">>, <<"no/", "b">>}, x \in {".xb", ".xbw", ".xml"}} \cup {<<"b">>, <<"d.x/", "b">>, <<"./", "d.x/", "a">>}
PutFew == {<<"xml", 1>>, <<"json", 2>>}
PutAll == {<<"xml", 0>>, <<"xml", 1>>, <<"xml", 2>>, <<"xml", 3>>, <<"xml", 4>>, <<"json", 0>>, <<"json", 1>>, <<"json", 2>>, <<"json", 3>>, <<"json", 4>>, <<"junk", 0>>, <<"junk", 3>>}
BothKinds == {"xb", "xbw"}
NoLim == {-1}  FewLims == {-1, 5, 11}  AllLims == (-1)..12
Pick(X) == IF Rand THEN {RandomElement(X)} ELSE X
Fits(N, k) == (Ext(N) \in XmlExts /\ k = "xml") \/ (Ext(N) = ".json" /\ k = "json")
Full(S, t, kind) == LET e == IF kind = "xbw" THEN ".xbw" ELSE ".xb" IN IF t = <<>> THEN Target(S, e) ELSE Target(t, e)
Put == \E S \in Pick(Sources), p \in Pick(Puts) :
    /\ (Same => h = <<>>) /\ Creatable(S) /\ Ext(S) # "" /\ (Rand \/ Fits(S, p[1])) /\ ~(Ext(S) = ".json" /\ p[1] = "xml") /\ ~(p \in PutXml /\ Mode = "web" /\ Ext(S) = ".xbw")     \* which texts pass as JSON is no matter of this module
    /\ K' = With(K, Path(S), IF p[1] = "junk" THEN [c |-> "part", d |-> -1] ELSE [c |-> p[1], d |-> p[2]])
    /\ h' = Append(h, <<"put", S, p[1], p[2]>>)
Srcs == IF Same THEN (IF h = <<>> THEN {} ELSE {h[1][2]}) ELSE Pick(Sources)
DoConv == \E S \in Srcs, t \in Pick(Targets), kind \in Pick(Kinds), l \in Pick(Lims) :
    LET T == Full(S, t, kind)
        can == Possible(K, S, T) /\ Fit(K, S, kind) IN
    /\ \E L \in Left(K, S, T, kind, (l >= 0 \/ ~Fit(K, S, kind)) /\ Possible(K, S, T)) \cup (IF can THEN {Whole(K, S, T, kind)} ELSE {}) :
          /\ \E r \in BOOLEAN : Conv(K, L, S, T, kind, l >= 0, r)
          /\ ((can /\ l < 0 /\ (kind = "xb" \/ At(K, Path(T)).c \in {"none", "xbw"})) => L = Whole(K, S, T, kind))
          /\ (Mode \in {"gen", "web"} => L = (IF can THEN Whole(K, S, T, kind) ELSE K))
          /\ K' = L
    /\ h' = Append(h, <<"conv", S, t, kind, l>>)
DoOpen == \E N \in (IF Same THEN Srcs \cup Targets ELSE Pick(Sources \cup Targets)) : N # <<>> /\ (\E d \in (-1)..4, T \in {K, IF Possible(K, N, OpenName(N)) THEN Whole(K, N, OpenName(N), "xb") ELSE K} : Open(K, T, N, d) /\ K' = T) /\ h' = Append(h, <<"open", N>>)
DoGet == \E N \in Srcs : (\E r \in BOOLEAN, T \in {K, IF Possible(K, N, Target(N, ".xb")) THEN Whole(K, N, Target(N, ".xb"), "xb") ELSE K} : Get(K, T, N, r) /\ K' = T) /\ h' = Append(h, <<"get", N>>)
Init == K = [x \in {} |-> None] /\ h = <<>>
Next == Len(h) < MaxOps /\ (Put \/ DoConv \/ DoOpen \/ DoGet)
Spec == Init /\ [][Next]_<<K, h>>
(* laws: a target is beside its source (or where it was said), has the extension of its kind and is a fixed point *)
TargetLaw == \A S \in Sources \cup (Targets \ {<<>>}), e \in {".xb", ".xbw"} :
    LET T == Target(S, e) IN /\ Ext(T) = e /\ Target(T, e) = T /\ Target(<<"./">> \o S, e) = T
                             /\ (Len(Clean(S)) > 1 /\ Clean(S)[1] \in {"d/", "d.x/", "no/"} => T[1] = Clean(S)[1])
                             /\ (Ext(S) # "" => Len(T) = Len(Clean(S)))
(* texts are only changed by putting them; every binary document is the whole one of some text that was put *)
Sound == \A p \in DOMAIN K : /\ K[p].c \in {"xb"} => K[p].d >= 0 /\ \E i \in DOMAIN h : h[i][1] = "put" /\ h[i][4] = K[p].d
                             /\ (K[p].c \in {"xml", "json"} => \E i \in DOMAIN h : h[i][1] = "put" /\ Path(h[i][2]) = p)
Keep == [][\A p \in DOMAIN K : K[p].c \in {"xml", "json"} /\ Last(h')[1] # "put" => (p \in DOMAIN K' /\ (K'[p] = K[p] \/ (Last(h')[1] = "conv" /\ p = Path(Full(Last(h')[2], Last(h')[3], Last(h')[4])))))]_<<K, h>>
Emit == Len(h') = MaxOps => PrintT("HD" \o ToString(h'))
===========================================================================
