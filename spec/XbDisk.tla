------------------------------ MODULE XbDisk ------------------------------
(* Conversions as changes of a directory of files: which file a conversion writes, and that it writes the whole document
   or reports a failure.
   A name is a sequence of tokens: "./", directories, the stem, extensions.  The disk maps a path (a name without "./")
   to its content [c, d]: c = "xml", "json" (a text of document d), "xb", "xbw" (a binary document with content d; -1: it
   has no root), "part" (nothing that opens as a document).                                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Exts == {".xml", ".xsd", ".wsdl", ".json", ".xbw", ".xb", ".txt", ".v1"}
Dirs == {"d/", "d.x/"}      \* directories that exist
XmlExts == {".xml", ".xsd", ".wsdl"}
Clean(N) == SelectSeq(N, LAMBDA x : x # "./")
Ext(N) == IF N # <<>> /\ Last(N) \in Exts THEN Last(N) ELSE ""
(* the extension of the last part of the path is replaced, directories are kept as they are *)
Target(N, ext) == LET P == Clean(N) IN IF Ext(P) = "" THEN Append(P, ext) ELSE Append(Front(P), ext)
Path(N) == FoldLeft(LAMBDA s, x : s \o x, "", Clean(N))
Creatable(N) == LET P == Clean(N) IN Len(P) = 1 \/ P[1] \in Dirs \/ P[1] \notin {"d/", "d.x/", "no/"}
None == [c |-> "none", d |-> -1]
At(K, p) == IF p \in DOMAIN K THEN K[p] ELSE None
With(K, p, v) == IF v.c = "none" THEN [q \in DOMAIN K \ {p} |-> K[q]] ELSE (p :> v) @@ K
Readable(K, N) == \* a source of a conversion
    LET v == At(K, Path(N))  x == Ext(N) IN
    v.d >= 0 /\ ((x \in XmlExts /\ v.c = "xml") \/ (x = ".json" /\ v.c = "json") \/ (x = ".xbw" /\ v.c = "xbw"))
Possible(K, S, T) == Readable(K, S) /\ Creatable(T) /\ Path(S) # Path(T)
(* opening a missing shared-memory document creates it; a file too short for a header is made one, too (XbwTrace says when) *)
Opened(K, S) == IF Ext(S) = ".xbw" /\ At(K, Path(S)).c \notin {"xb", "xbw"} /\ Creatable(S) THEN {K, With(K, Path(S), [c |-> "xbw", d |-> -1])} ELSE {K}
(* what may be left where the conversion did not succeed: what was there, or nothing that is a document *)
Left(K, S, T, kind, short) ==
    Opened(K, S) \cup (IF short THEN {With(K, Path(T), v) : v \in {None, [c |-> "part", d |-> -1]} \cup (IF kind = "xbw" THEN {[c |-> "xbw", d |-> -1]} ELSE {})} ELSE {})
Whole(K, S, T, kind) == With(K, Path(T), [c |-> kind, d |-> At(K, Path(S)).d])
(* a shared-memory document is made of XML only: the root element of a JSON text has no name, copies are made by CopyPath *)
Fit(K, S, kind) == kind = "xbw" => At(K, Path(S)).c = "xml"
(* the conversion of S to T, K becomes L, result r.  short: there was not enough space for everything it writes *)
Conv(K, L, S, T, kind, short, r) ==
    IF r THEN Possible(K, S, T) /\ Fit(K, S, kind) /\ L = Whole(K, S, T, kind)
    ELSE /\ ~Possible(K, S, T) \/ short \/ ~Fit(K, S, kind) \/ (kind = "xbw" /\ At(K, Path(T)).c \notin {"none", "xbw"})   \* another file is not made a document
         /\ L \in Left(K, S, T, kind, (short \/ ~Fit(K, S, kind)) /\ Possible(K, S, T))
(* a reader converts texts first *)
OpenName(N) == IF Ext(N) \in XmlExts \cup {".json"} THEN Target(N, ".xb") ELSE Clean(N)
Open(K, L, N, d) ==
    IF Ext(N) \in XmlExts \cup {".json"}
    THEN IF Possible(K, N, OpenName(N)) THEN d = At(K, Path(N)).d /\ L = Whole(K, N, OpenName(N), "xb") ELSE d = -1 /\ L = K
    ELSE L = K /\ d = (IF At(K, Path(N)).c = "xb" THEN At(K, Path(N)).d ELSE -1)
Get(K, L, N, r) ==
    IF Ext(N) \in XmlExts /\ Possible(K, N, Target(N, ".xb")) THEN r /\ L = Whole(K, N, Target(N, ".xb"), "xb") ELSE ~r /\ L = K
===========================================================================
