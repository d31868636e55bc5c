---------------------------- MODULE XbwTrace ----------------------------
(* Validation of recorded executions of the real library: every call must be a step of Xbw and everything observed
   must be what the specification says.  TLC stops at the first call that is not allowed: register 1 keeps its
   number.                                                                                                      *)
EXTENDS Xbw, XbwImage, Json, IOUtils
VARIABLES l, xb
Trace == ndJsonDeserialize(IOEnv.TRACE)

(* ---- comparison of an observation o of file f with its document d ---- *)
SeqOfHandles(s) == s
ExtentList(o) == \* byte ranges of everything stored: header, names, indices, elements
    <<<<0, HeaderSize>>, <<o.Tx[1], o.Tx[2]>>, <<o.Tx[3], o.Tx[4]>>, <<o.Px[1], o.Px[2]>>, <<o.Px[3], o.Px[4]>>>>
    \o [i \in 1..Len(o.E) |-> <<o.E[i].off, o.E[i].sz>>]
Disjoint(X, al) ==
    /\ \A i \in DOMAIN X : X[i][2] > 0 => X[i][1] >= 0 /\ X[i][1] + X[i][2] <= al
    /\ \A i \in DOMAIN X : \A j \in DOMAIN X : i < j /\ X[i][2] > 0 /\ X[j][2] > 0 =>
          X[i][1] + X[i][2] <= X[j][1] \/ X[j][1] + X[j][2] <= X[i][1]
ElOk(d, o, h) ==
    LET m == d.el[h]  x == o.E[h]  ch == Ch(d, h) IN
    /\ x.k = m.k /\ x.id = m.id /\ x.t = m.t /\ x.v = m.v
    /\ x.nx = m.nx /\ o.E[m.nx].pv = h
    /\ x.ch = ch /\ x.rc = Rev(ch) /\ x.cc = ch
    /\ x.at = At(d, h)
    /\ x.off % 4 = 0 /\ (m.t \in IS8 => x.off % 8 = 0)
    /\ x.sz >= ElemSize + (IF m.t = "STRING" THEN m.len + 1 ELSE ValueSpace(m.t, m.len))
DocOk(d, o) ==
    /\ o.T = d.T /\ o.P = d.P
    /\ o.Tinv = 1 /\ o.Pinv = 1 /\ o.Tidx = 1 /\ o.Pidx = 1
    /\ o.Tready = (IF d.Tr THEN 1 ELSE 0) /\ o.Pready = (IF d.Pr THEN 1 ELSE 0)
    /\ o.root = d.root
    /\ o.al = d.al /\ o.fs = d.fs /\ o.ms = d.ms /\ o.lim = d.fs /\ o.st = d.fs
    /\ Len(o.E) = Len(d.el)
    /\ \A h \in El(d) : ElOk(d, o, h)
    /\ Disjoint(ExtentList(o), o.al)
    /\ (d.T # <<>> => o.Tx[2] = NamesSize(d.T)) /\ (d.P # <<>> => o.Px[2] = NamesSize(d.P))
ObsOk(o, sl, fi) == \* what is seen through every open slot
    /\ \A i \in DOMAIN o :
        IF (i - 1) \in DOMAIN sl THEN o[i].open = 1 /\ o[i].f = sl[i - 1].f /\ DocOk(fi[sl[i - 1].f], o[i])
        ELSE o[i].open = 0
    /\ \A p \in DOMAIN sl : p < Len(o)

PeekOk(e) == LET d == File(e.f) IN
    IF d.st = "xbw" THEN e.peek.open = 1 /\ DocOk(d, e.peek) ELSE e.peek.open = 0

(* ---- reading interfaces ---- *)
V(d, h) == d.el[h].v
GetV(d, h, g) == IF GetOk(d, h, g) THEN V(d, h) ELSE "-"
GetVo(d, h, g) == IF h = 0 THEN "-" ELSE GetV(d, h, g)
ProbeOk(e) ==
    LET d == Doc(e.p)  h == e.h  g == e.g  m == d.el[h] IN
    /\ g.i32 = GetV(d, h, "i32") /\ g.f = GetV(d, h, "f") /\ g.tm = GetV(d, h, "tm") /\ g.i64 = GetV(d, h, "i64")
    /\ g.u64 = GetV(d, h, "u64") /\ g.guid = GetV(d, h, "guid") /\ g.str = GetV(d, h, "str")
    /\ Len(g.tg) = Len(d.T) /\ Len(g.ag) = Len(d.P)
    /\ \A i \in DOMAIN g.tg : LET c == FirstChild(d, h, i - 1) IN
          g.tg[i] = c /\ g.fc[i] = c /\ g.ti[i] = GetVo(d, c, "i32") /\ g.ts[i] = GetVo(d, c, "str")
    /\ \A i \in DOMAIN g.ag : LET c == FirstAttr(d, h, i - 1) IN
          g.ag[i] = c /\ g.fa[i] = c /\ g.ai[i] = GetVo(d, c, "i32")
    /\ g.rec = Rec(d, h, 0)
    /\ (m.k = "t" /\ d.Tr /\ m.id \in 0..(Len(d.T) - 1) => g.nm = d.T[m.id + 1][1])
    /\ g.bt = m.t
    /\ (m.t \in {"STRING","BLOB","HEX"} => g.bs = m.len)
    /\ (m.t # "NULL" => g.bp = ElemSize)
    /\ (d.Pr => g.pn = [i \in 1..Len(At(d, h)) |-> d.P[d.el[At(d, h)[i]].id + 1][1]])
(* findChildByParam: first child with the tag that has an attribute of this name, type and value *)
HasAttrValue(d, c, a, ty, v) == \E i \in DOMAIN At(d, c) : LET x == d.el[At(d, c)[i]] IN x.id = a /\ x.t = ty /\ x.v = v
ByVal(e) ==
    LET d == Doc(e.p)
        s == SelectSeq(Ch(d, e.h), LAMBDA c : d.el[c].id = e.tag /\ HasAttrValue(d, c, e.attr, e.ty, e.v))
    IN e.r = (IF s = <<>> THEN 0 ELSE s[1])

IsDict(L, D) == Len(L) = Len(D) /\ Range(L) = Range(D)
ConvOk(e) ==
    LET d == Doc(e.p) IN
    /\ Same(d, e)
    /\ IF d.root = 0 THEN e.r = 0 /\ e.pl = 0
       ELSE Complete(d) =>
            /\ e.r = 1 /\ e.open = 1
            /\ e.t = Image(d, d.root)
            /\ IsDict(e.dt, d.T) /\ (IsDict(e.dp, d.P) \/ (~d.Pr /\ e.dp = <<>>)) /\ e.sorted = 1
            /\ (e.plain = 1 => e.parsed = 1 /\ e.px = e.pr)

(* ---- documents that grow ---- xb: slot -> what was written and appended *)
MkXb(e) ==
    LET d == Doc(e.p)  x == Written(d, e) IN
    /\ Same(d, e) /\ UNCHANGED xvars
    /\ IF e.k = "n" \/ d.root = 0 THEN e.r = 0 /\ xb' = Del(xb, e.p)
       ELSE IF Complete(d)
       THEN /\ e.r = 1 /\ e.open = 1 /\ IsDict(e.dt, d.T) /\ (IsDict(e.dp, d.P) \/ (~d.Pr /\ e.dp = <<>>))
            /\ e.v = View(x, 0) /\ (e.plain = 1 => e.parsed = 1 /\ e.printed = 1)
            /\ xb' = Upd(xb, e.p, x)
       ELSE xb' = Upd(xb, e.p, NoXb)
(* Of the elements of the list those before the first one that cannot be appended are appended; fewer when there is no
   space for the next one.  Readers of the file, of a copy of it cut anywhere, and those opened earlier see whole
   elements only.                                                                                                    *)
AppendTo(e) ==
    LET d == Doc(e.p)  x == xb[e.p]  L == Ring(d, e.h)  k == HowMany(d, x, L)
        n0 == Len(x.app)
        full == [x EXCEPT !.app = @ \o [i \in 1..k |-> Image(d, L[i])]]
        vs == TLCEval([i \in 1..(k + 1) |-> View(full, n0 + i - 1)])
        grows == vs[1] # vs[k + 1]
        ks == [i \in 1..Len(e.cuts) |-> LET c == e.cuts[i] IN {j \in 0..k : vs[j + 1] = c}]
        end(j) == /\ e.r = (IF j = Len(L) THEN 1 ELSE 0)
                  /\ (j < k => e.k >= 0)
                  /\ (j = 0 <=> e.s1 = e.s0)
                  /\ xb' = [xb EXCEPT ![e.p].app = @ \o [i \in 1..j |-> Image(d, L[i])]]
    IN /\ e.same = 1 /\ e.keep = 1 /\ e.open = 1 /\ (e.plain = 1 => e.parsed = 1 /\ e.printed = 1)
       /\ (e.k >= 0 => e.s1 <= e.s0 + e.k)
       /\ Len(e.cuts) >= 1 /\ e.at[1] = e.s0
       /\ IF k = 0 \/ ~grows
          THEN /\ Len(e.cuts) = 1 /\ e.cuts[1] = vs[1]
               /\ \E j \in 0..k : end(j)
          ELSE /\ \A i \in DOMAIN ks : Cardinality(ks[i]) = 1
               /\ LET kk == [i \in DOMAIN ks |-> CHOOSE j \in ks[i] : TRUE] IN
                  /\ kk[1] = 0 /\ \A i \in 2..Len(kk) : kk[i] > kk[i - 1]
                  /\ end(kk[Len(kk)])
App(e) ==
    /\ Same(Doc(e.p), e) /\ UNCHANGED xvars
    /\ IF e.p \notin DOMAIN xb THEN e.r = 0 /\ e.same = 1 /\ e.s0 = e.s1 /\ UNCHANGED xb
       ELSE IF xb[e.p] = NoXb THEN UNCHANGED xb
       ELSE AppendTo(e)

Reset(e) == PrintT(<<"AT", l>>) /\ slots' = Nothing /\ files' = Nothing
(* the driver does not make a call its caller may not make; that happens only after calls were refused *)
SkipOk(e) ==
    LET d == Doc(e.p) IN
    CASE e.op = "add" -> ~AddOk(d, e.h, e.c) \/ d.el[e.h].k # "t"
      [] e.op = "join" -> ~(JoinOk(d, e.h, e.c) /\ e.h # d.root /\ (Owner(d, e.h) = 0 \/ AddOk(d, Owner(d, e.h), e.c)))
      [] e.op = "rem" -> ~RemOk(d, e.h, e.c)
      [] e.op = "sets" -> e.c \notin Range(Ch(d, e.h))
      [] e.op = "rep" -> ~RepOk(d, e.h, e.c, e.d)
      [] e.op = "root" -> ~(Owner(d, e.h) = 0 /\ d.el[e.h].nx = e.h)
      [] OTHER -> FALSE
TraceStep(e) ==
    /\ IF e.n = "RESET" THEN Reset(e)
       ELSE IF e.n = "CRASH" THEN FALSE
       ELSE IF e.n = "skip" THEN SkipOk(e) /\ UNCHANGED xvars
       ELSE IF e.n \in {"dead","closed"} THEN UNCHANGED xvars
       ELSE IF e.n = "obs" THEN UNCHANGED xvars
       ELSE IF e.n = "probe" THEN ProbeOk(e) /\ UNCHANGED xvars
       ELSE IF e.n = "conv" THEN ConvOk(e) /\ UNCHANGED xvars
       ELSE IF e.n = "byval" THEN ByVal(e) /\ UNCHANGED xvars
       ELSE IF e.n = "mkxb" THEN MkXb(e)
       ELSE IF e.n \in {"app","appl"} THEN App(e)
       ELSE XStep(e)
    /\ (e.n \notin {"mkxb","app","appl"} => xb' = IF e.n \in {"RESET","kill"} THEN Nothing ELSE IF e.n = "close" THEN Del(xb, e.p) ELSE xb)
    /\ (e.n = "peek" => PeekOk(e))
    /\ (e.n \notin {"RESET","CRASH","closed","kill","mkfile","patch","resize","peek","close","open"} /\ IsOpen(e.p) => SpaceOk(Doc(e.p), e))
    /\ (e.o # <<>> => ObsOk(e.o, slots', files'))

TInit == XInit /\ l = 1 /\ xb = Nothing
TNext == l <= Len(Trace) /\ TraceStep(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<xvars, l, xb>>
(* number of accepted events *)
Accepted == TLCSet(1, TLCGet("stats").diameter - 1) /\ PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=========================================================================
