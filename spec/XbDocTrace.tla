--------------------------- MODULE XbDocTrace ---------------------------
(* Events of xb_driver, see there. The document that was converted is D, the tree the reader showed T. *)
EXTENDS JsonDoc, Json, IOUtils
VARIABLES l, D, T
Trace == ndJsonDeserialize(IOEnv.TRACE)
NullInt == <<45, 49, 51, 52, 50, 49, 55, 55, 50, 56>>          \* what getInt says when there is no number

(* ---- values *)
Body(ty, r) ==
    CASE ty = "NULL" -> IF r = <<>> THEN [ok |-> TRUE, b |-> <<>>] ELSE None
      [] ty = "STRING" -> IF Len(r) > 0 /\ Find(r, {0}) = Len(r) THEN [ok |-> TRUE, b |-> Before(r, Len(r))] ELSE None
      [] ty \in {"BLOB", "HEX"} -> IF Len(r) < 4 \/ Uns(SubSeq(r, 1, 4)) # Small(Len(r) - 4) THEN None ELSE [ok |-> TRUE, b |-> SubSeq(r, 5, Len(r))]
      [] ty = "SHA1" -> IF Len(r) \in {20, 24} THEN [ok |-> TRUE, b |-> SubSeq(r, 1, 20)] ELSE None
      [] OTHER -> IF Len(r) = Size(ty) THEN [ok |-> TRUE, b |-> r] ELSE None
Printed(ty, b, t) == IF ty \in FloatTypes THEN PrintsFloat(ty, b, t) ELSE ty = "NULL" \/ (Covered(ty, b) => t = Text(ty, b))
Stored(t, x) ==         \* the value x holds the text t
    IF t = <<>> THEN x.t = "NULL" /\ x.s = <<>>
    ELSE LET B == Body(x.t, x.r) IN x.t # "NULL" /\ B.ok /\ Denotes(x.t, t, B.b) /\ Printed(x.t, B.b, x.s) /\ Kept(x.t, t, x.s)
Same(s, t) == s = t \/ SameNumber(Number(s, TRUE), Number(t, TRUE))
(* numbers: none or the right one; certainly the right one when it is stored or written as such a number *)
Getter(g, none, x, ty) ==
    LET sure == (x.t = ty /\ x.s # <<>>) \/ (x.t = "STRING" /\ Canon(ty, x.s))
        num == Number(x.s, TRUE) IN
    IF sure THEN g = x.s ELSE IF x.t = "STRING" THEN TRUE ELSE g = none \/ (num.ok /\ SameNumber(Number(g, FALSE), num))
Getters(x) == Getter(x.gi, NullInt, x, "INT32") /\ Getter(x.gp, <<>>, x, "INT32") /\ Getter(x.g8, <<>>, x, "INT64")

Shape(X) == Len(X) = Len(D) /\ \A i \in 1..Len(D) : X[i].d = D[i].d /\ X[i].n = D[i].n /\ Len(X[i].a) = Len(D[i].a) /\ \A k \in 1..Len(D[i].a) : X[i].a[k].n = D[i].a[k].n
GoodTree(e) ==
    /\ e.ok = 1 /\ Shape(e.tree)
    /\ \A i \in 1..Len(D) : LET x == e.tree[i] IN
         /\ x.bad = 0 /\ Stored(D[i].t, x) /\ Getters(x)
         /\ \A k \in 1..Len(D[i].a) : Stored(D[i].a[k].v, x.a[k]) /\ Getters(x.a[k])
GoodPrint(e) ==
    /\ e.wf = 1 /\ e.rc = 1
    /\ Len(e.view) = Len(T)
    /\ \A i \in 1..Len(T) : LET x == T[i]  v == e.view[i] IN
         /\ v.d = x.d /\ v.n = x.n /\ v.t = x.s /\ Len(v.a) = Len(x.a)
         /\ \A k \in 1..Len(x.a) : v.a[k] = <<x.a[k].n, x.a[k].s>>
    /\ Shape(e.again)
    /\ \A i \in 1..Len(T) : Same(T[i].s, e.again[i].s) /\ \A k \in 1..Len(T[i].a) : Same(T[i].a[k].s, e.again[i].a[k].s)

(* ---- types of names *)
RECURSIVE ValuesR(_, _, _), AttrValuesR(_, _, _, _)
ValuesR(n, i, R) == IF i > Len(D) THEN R ELSE LET t == D[i].t IN ValuesR(n, i + 1, IF D[i].n = n /\ t # <<>> THEN Append(R, [v |-> t, dt |-> D[i].dt]) ELSE R)
AttrValuesR(n, i, k, R) ==
    IF i > Len(D) THEN R ELSE IF k > Len(D[i].a) THEN AttrValuesR(n, i + 1, 1, R)
    ELSE LET x == D[i].a[k] IN AttrValuesR(n, i, k + 1, IF x.n = n /\ x.v # <<>> THEN Append(R, [v |-> x.v, dt |-> x.dt]) ELSE R)
Detected(t, dt) == t # <<>> => DetectCanon(t) \in {"?", dt}
GoodDoc(e) == e.rp = 1 /\ e.ru = 1 /\ \A i \in 1..Len(e.doc) : LET x == e.doc[i] IN Detected(LTrim(x.t), x.dt) /\ \A k \in 1..Len(x.a) : Detected(x.a[k].v, x.a[k].dt)
(* ---- JSON *)
GoodJson(e) ==
    IF e.rp = -1 THEN TRUE                                        \* nothing is said about this text
    ELSE IF Refused(e.t) THEN e.rp = 0 /\ e.ru = 0
    ELSE LET tree == Tree(e.t) IN
         /\ IsJson(e.t) /\ e.rp = 1 /\ e.ru = 1
         /\ [i \in 1..Len(e.doc) |-> [d |-> e.doc[i].d, n |-> e.doc[i].n, t |-> e.doc[i].t]] = tree
         /\ \A i \in 1..Len(e.doc) : Detected(e.doc[i].t, e.doc[i].dt)
         /\ e.u # <<>> => Words(e.t) = Words(e.u) /\ e.same = 1
TypeOk(ty, V) == IF V = <<>> THEN ty \in W!Bottoms ELSE ty = TypeOf(V)
GoodTypes(e) ==
    /\ \A i \in 1..Len(e.tags) : TypeOk(e.tags[i].t, ValuesR(e.tags[i].n, 1, <<>>))
    /\ \A i \in 1..Len(e.pars) : TypeOk(e.pars[i].t, AttrValuesR(e.pars[i].n, 1, 1, <<>>))
    /\ \A i \in 1..Len(e.tree) : \A k \in 1..Len(e.tree[i].a) : LET x == e.tree[i].a[k] IN x.t \in {"NULL", "STRING", e.pars[x.id + 1].t}
GoodDict(e) ==
    LET TN == [i \in 1..Len(e.tags) |-> e.tags[i].n]  AN == [i \in 1..Len(e.pars) |-> e.pars[i].n] IN
    /\ e.ok = 1 /\ e.bad = 0
    /\ Sorted(TN) /\ Sorted(AN)
    /\ {TN[i] : i \in 1..Len(TN)} = Tags(D) \ {NoName} /\ {AN[i] : i \in 1..Len(AN)} = Attrs(D)
    /\ \A i \in 1..Len(e.probe) : e.probe[i].tag = Search(TN, e.probe[i].n) /\ e.probe[i].par = Search(AN, e.probe[i].n)
    /\ Len(e.tree) = Len(D)
    /\ \A i \in 1..Len(D) : LET x == e.tree[i] IN
         /\ (IF D[i].n = NoName THEN x.id = -1 ELSE x.id \in 0..(Len(TN) - 1) /\ TN[x.id + 1] = D[i].n) /\ Len(x.a) = Len(D[i].a)
         /\ \A k \in 1..Len(x.a) : x.a[k].id \in 0..(Len(AN) - 1) /\ AN[x.a[k].id + 1] = D[i].a[k].n
    /\ GoodTypes(e)

(* ---- packing: the stored elements *)
St(X) == [i \in 1..Len(X) |-> [d |-> X[i].d, n |-> X[i].id, t |-> <<X[i].t, X[i].r>>, a |-> [k \in 1..Len(X[i].a) |-> <<X[i].a[k].id, X[i].a[k].t, X[i].a[k].r>>]]]
Shown(X) == [i \in 1..Len(X) |-> <<X[i].n, X[i].s, X[i].gi, X[i].g8, [k \in 1..Len(X[i].a) |-> <<X[i].a[k].n, X[i].a[k].s, X[i].a[k].gi, X[i].a[k].g8>>]>>]
GoodPack(e) ==
    LET U == St(e.u)  Q == St(e.p) IN
    /\ U = Q /\ Len(U) = Len(D)
    /\ Shown(e.us) = Shown(e.ps)
    /\ LET SL == [i \in 1..Len(Q) |-> Slice(Q, i)] IN
       \A i, j \in 1..Len(Q) : i < j => ((e.p[i].off = e.p[j].off) <=> (SL[i] = SL[j]))
    /\ \A i, j \in 1..Len(U) : i # j => e.u[i].off # e.u[j].off

(* ---- traversals *)
GoodWalk(e) ==
    LET n == Len(D)  off(i) == e.ix[i][1]  PO == Post(D, 1)
        tag(k) == e.tags[k]  at(k) == e.pars[k] IN
    /\ e.ok = 1 /\ e.bad = 0 /\ Len(e.ix) = n
    /\ \A i \in 1..n : LET x == e.ix[i] IN x[2] = D[i].d /\ (IF D[i].n = NoName THEN x[3] = -1 ELSE tag(x[3] + 1) = D[i].n) /\ x[4] = Len(Kids(D, i)) /\ x[5] = Len(D[i].a)
    /\ e.nx = [i \in 1..n |-> <<off(i), D[i].d>>]
    /\ e.pre = [i \in 1..(n - 1) |-> <<off(i + 1), D[i + 1].d - 1>>]
    /\ e.post = [i \in 1..(n - 1) |-> <<off(PO[i]), D[PO[i]].d - 1>>]
    /\ e.pa = [i \in 1..(n - 1) |-> <<off(PO[i]), D[PO[i]].d - 1>> \o [k \in 1..Len(Path(D, PO[i])) |-> off(Path(D, PO[i])[k])]]
    /\ Len(e.bn) = n
    /\ \A i \in 1..n : /\ e.bn[i][1] = [k \in 1..Len(e.tags) |-> LET c == ChildNamed(D, i, tag(k)) IN IF c = 0 THEN 0 ELSE off(c)]
                       /\ e.bn[i][2] = [k \in 1..Len(e.pars) |-> AttrNamed(D, i, at(k)) - 1]

(* ---- shared-memory documents: what Xbw starts from. Every value has the type of its name, or its own when that is VARIANT *)
OwnType(ty, t, dt) == IF t = <<>> THEN "NULL" ELSE IF ty = "VARIANT" THEN dt ELSE ty
InMemory(t, x) == IF t = <<>> THEN x.t = "NULL" /\ x.r = <<>> ELSE LET B == Body(x.t, x.r) IN x.t # "NULL" /\ B.ok /\ Denotes(x.t, t, B.b) /\ (Len(t) < 100 => Printed(x.t, B.b, x.s) /\ Kept(x.t, t, x.s))
GoodXbw(e) ==
    IF NoName \in Tags(D) THEN e.rc = 0                          \* JSON only: it cannot be stored
    ELSE LET TN == [i \in 1..Len(e.tags) |-> e.tags[i].n]  AN == [i \in 1..Len(e.pars) |-> e.pars[i].n] IN
    /\ e.rc = 1 /\ e.ok = 1 /\ e.cp = 1 /\ e.cu = 1
    /\ Sorted(TN) /\ Sorted(AN) /\ {TN[i] : i \in 1..Len(TN)} = Tags(D) /\ {AN[i] : i \in 1..Len(AN)} = Attrs(D)
    /\ \A i \in 1..Len(e.tags) : TypeOk(e.tags[i].t, ValuesR(e.tags[i].n, 1, <<>>))
    /\ \A i \in 1..Len(e.pars) : TypeOk(e.pars[i].t, AttrValuesR(e.pars[i].n, 1, 1, <<>>))
    /\ Shape(e.tree) /\ Shape(e.p) /\ Shape(e.u)
    /\ \A i \in 1..Len(D) : LET d == D[i]  x == e.tree[i]  p == e.p[i]  u == e.u[i] IN
         /\ x.bad = 0 /\ p.bad = 0 /\ u.bad = 0
         /\ x.id \in 0..(Len(TN) - 1) /\ TN[x.id + 1] = d.n /\ x.t = OwnType(e.tags[x.id + 1].t, d.t, d.dt)
         /\ InMemory(d.t, x) /\ Stored(d.t, p) /\ Stored(d.t, u) /\ p.t = x.t /\ u.t = x.t
         /\ \A k \in 1..Len(d.a) : LET a == d.a[k]  y == x.a[k] IN
              /\ y.id \in 0..(Len(AN) - 1) /\ AN[y.id + 1] = a.n /\ y.t = OwnType(e.pars[y.id + 1].t, a.v, a.dt)
              /\ InMemory(a.v, y) /\ Stored(a.v, p.a[k]) /\ Stored(a.v, u.a[k]) /\ p.a[k].t = y.t /\ u.a[k].t = y.t

(* ---- big documents. At most 32768 names *)
GoodMany(e) ==
    LET N == e.num  names == CASE e.kind = "tags" -> N + 1 [] e.kind \in {"attrs", "one"} -> N [] OTHER -> 2 IN
    IF names > 32768 THEN e.rc = 0
    ELSE /\ e.rc = 1
         /\ e.els = (IF e.kind = "one" THEN 1 ELSE N + 1)
         /\ e.tags = (CASE e.kind = "tags" -> N + 1 [] e.kind = "one" -> 1 [] OTHER -> 2)
         /\ e.pars = (IF e.kind \in {"attrs", "one"} THEN N ELSE 0)
         /\ e.found = e.tags + e.pars
         /\ e.order = (e.tags - 1) + (IF e.pars > 0 THEN e.pars - 1 ELSE 0)
         /\ e.vals = (IF e.kind \in {"wide", "deep"} THEN 0 ELSE N)

Good(e) == CASE e.n = "doc" -> GoodDoc(e) [] e.n = "json" -> GoodJson(e) [] e.n = "tree" -> GoodTree(e) [] e.n = "print" -> GoodPrint(e) [] e.n = "dict" -> GoodDict(e)
             [] e.n = "pack" -> GoodPack(e) [] e.n = "walk" -> GoodWalk(e) [] e.n = "many" -> GoodMany(e) [] e.n = "xbw" -> GoodXbw(e)
Init == l = 1 /\ D = <<>> /\ T = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ (IF e.n = "RESET" THEN PrintT(<<"AT", l>>) ELSE IF e.n = "CRASH" THEN FALSE ELSE Good(e) = TRUE)
           /\ D' = (IF e.n = "doc" THEN [i \in 1..Len(e.doc) |-> [e.doc[i] EXCEPT !.t = LTrim(@)]] ELSE IF e.n = "json" THEN e.doc ELSE IF e.n = "RESET" THEN <<>> ELSE D)
           /\ T' = (IF e.n = "tree" THEN e.tree ELSE IF e.n \in {"doc", "json", "RESET"} THEN <<>> ELSE T)
        /\ l' = l + 1
TSpec == Init /\ [][Next]_<<l, D, T>>
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=========================================================================
