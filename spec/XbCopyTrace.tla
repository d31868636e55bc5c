--------------------------- MODULE XbCopyTrace ---------------------------
(* Events of xb_driver: src (a source document), tgt (a new shared-memory document), cp (a copy), fin (the .xb made of it). *)
EXTENDS XbDoc, Json, IOUtils
VARIABLES l, S, T, C
Trace == ndJsonDeserialize(IOEnv.TRACE)
X == INSTANCE XbDocTrace WITH D <- <<>>, T <- <<>>
Nul == [t |-> "NULL", r |-> <<>>]
B(v) == X!Body(v.t, v.r)
Equal(x, y) ==
    IF x.t = y.t THEN B(x).b = B(y).b
    ELSE IF x.t = "STRING" THEN y.t # "NULL" /\ Denotes(y.t, B(x).b, B(y).b)
    ELSE IF y.t = "STRING" THEN x.t # "NULL" /\ Denotes(x.t, B(y).b, B(x).b) ELSE FALSE
CP == INSTANCE XbCopy WITH SameValue <- Equal, NoValue <- Nul
Tree(Y) == [i \in 1..Len(Y) |-> [d |-> Y[i].d, n |-> Y[i].n, t |-> [t |-> Y[i].t, r |-> Y[i].r], off |-> Y[i].off, a |-> [k \in 1..Len(Y[i].a) |-> [n |-> Y[i].a[k].n, t |-> [t |-> Y[i].a[k].t, r |-> Y[i].a[k].r]]]]]
Moved(Y) == [i \in 1..Len(Y) |-> [Y[i] EXCEPT !.off = 0]]
TypeIn(L, n) == LET I == {i \in 1..Len(L) : L[i].n = n} IN IF I = {} THEN "UNKNOWN" ELSE L[CHOOSE i \in I : TRUE].t
(* a text may get the type of its name *)
Copied(v, x, ty) == (x.t = v.t /\ B(x).ok /\ B(x).b = B(v).b) \/ (v.t = "STRING" /\ x.t = ty /\ ty # "NULL" /\ B(x).ok /\ Denotes(ty, B(v).b, B(x).b))
SameEl(e, x) == /\ x.d = e.d /\ x.n = e.n /\ Len(x.a) = Len(e.a) /\ Copied(e.t, x.t, TypeIn(C.tags, e.n))
                /\ \A k \in 1..Len(e.a) : x.a[k].n = e.a[k].n /\ Copied(e.a[k].t, x.a[k].t, TypeIn(C.pars, e.a[k].n))
NamesOf(L) == {L[i].n : i \in 1..Len(L)}
Known(F) == \A i \in 1..Len(F) : F[i].n \in NamesOf(C.tags) /\ \A k \in 1..Len(F[i].a) : F[i].a[k].n \in NamesOf(C.pars)
GoodCp(e) ==
    LET Y == S[e.i + 1]  N == Tree(e.tree)  K == {C.keys[k] : k \in 1..Len(C.keys)} \cap UNION {{Y[i].a[k].n : k \in 1..Len(Y[i].a)} : i \in 1..Len(Y)}
        R == CP!CopyPath(T, C.base, Y, CP!Route(Y, e.el), e.w = 1, K) IN
    /\ \A i \in 1..Len(N) : e.tree[i].bad = 0
    /\ IF ~R.ok THEN e.rc = 0 /\ N = T
       ELSE IF ~Known(R.new) THEN e.rc = 0 /\ SelectSeq(N, LAMBDA x : \E i \in 1..Len(T) : T[i].off = x.off) = T
       ELSE /\ Len(N) = Len(R.T) /\ e.rc = N[R.at].off
            /\ \A i \in 1..Len(N) : IF R.T[i].off # 0 THEN N[i] = R.T[i] ELSE SameEl(R.T[i], N[i]) /\ N[i].off > 0
GoodSrc(e) == e.ok = 1 /\ \A i \in 1..Len(e.tree) : e.tree[i].bad = 0
GoodTgt(e) == e.ok = 1 /\ Len(e.tree) = e.base /\ \A i \in 1..Len(e.tree) : e.tree[i].bad = 0
(* converted to .xb: the same elements and values (an element around a transaction has a name of the system, which .xb has not) *)
Out(v, x) == (v.t = x.t \/ (v.t = "NULL" /\ x.t = "NULL")) /\ B(x).ok /\ B(x).b = B(v).b
GoodFin(e) == IF T = <<>> THEN TRUE ELSE e.rc = 1 /\ Len(e.tree) = Len(T) /\ \A i \in 1..Len(T) : LET x == Tree(e.tree)[i] IN
    x.d = T[i].d /\ (x.n = T[i].n \/ i <= C.base) /\ Out(T[i].t, x.t) /\ Len(x.a) = Len(T[i].a) /\ \A k \in 1..Len(x.a) : x.a[k].n = T[i].a[k].n /\ Out(T[i].a[k].t, x.a[k].t)
Good(e) == CASE e.n = "src" -> GoodSrc(e) [] e.n = "tgt" -> GoodTgt(e) [] e.n = "cp" -> GoodCp(e) [] e.n = "fin" -> GoodFin(e)
Init == l = 1 /\ S = <<<<>>, <<>>>> /\ T = <<>> /\ C = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ (IF e.n = "RESET" THEN PrintT(<<"AT", l>>) ELSE IF e.n = "CRASH" THEN FALSE ELSE Good(e) = TRUE)
           /\ S' = (IF e.n = "src" THEN [S EXCEPT ![e.i + 1] = Moved(Tree(e.tree))] ELSE S)
           /\ T' = (IF e.n \in {"tgt", "cp"} THEN Tree(e.tree) ELSE IF e.n = "RESET" THEN <<>> ELSE T)
           /\ C' = (IF e.n = "tgt" THEN [keys |-> e.keys, base |-> e.base, tags |-> e.tags, pars |-> e.pars] ELSE C)
        /\ l' = l + 1
TSpec == Init /\ [][Next]_<<l, S, T, C>>
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=========================================================================
