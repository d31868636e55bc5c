----------------------------- MODULE XbwGen -----------------------------
(* Histories of the API for the driver.  The specification predicts every call; hist is the list of script lines.
   Two uses: exhaustive (VIEW without hist, every transition of the state graph printed once with a shortest history
   leading to it) and simulation (long random histories, printed when they have Depth calls).                     *)
EXTENDS Xbw, XbwImage, Json
CONSTANTS Setup,      \* calls (records) every history starts with: opened files, dictionaries
          Kinds,      \* names of the calls used
          Slots, MaxEl, Depth, Mode,
          MkSet,      \* <<fn, tag id, value, length>>
          AtSet,      \* <<fn, attribute id, value, length>>
          SetSet,     \* <<fn, tag id, value, length>>
          StrSet,     \* <<value, length>> for setStr
          WrSet,      \* <<getter, value>>
          FindIds, RetypeTo, Imports, ValSet, Junk, RegNames, RegTypes, AltIds, Files, MaxSize, Patches, Spaces, MaxNames
VARIABLES hist, op
gvars == <<slots, files, hist, op>>

S(x) == ToString(x)
B(s) == " " \o s
(* script line of a call *)
Line(e) ==
    CASE e.n = "open" -> "open " \o S(e.p) \o B(S(e.f)) \o B(S(e.max)) \o B(S(e.new))
      [] e.n \in {"close","reinit","kill","clear","dsize","allreg"} -> e.n \o B(S(e.p))
      [] e.n = "mkfile" -> "mkfile 0 " \o S(e.f) \o B(e.v)
      [] e.n = "patch" -> "patch 0 " \o S(e.f) \o B(S(e.at)) \o B(S(e.v))
      [] e.n = "resize" -> "resize 0 " \o S(e.f) \o B(S(e.v))
      [] e.n = "peek" -> "peek 0 " \o S(e.f) \o B(S(e.max))
      [] e.n \in {"rtid","raid"} -> e.n \o B(S(e.p)) \o B(S(e.id)) \o B(e.nm) \o B(e.ty)
      [] e.n \in {"rt","ra"} -> e.n \o B(S(e.p)) \o B(e.nm) \o B(e.ty)
      [] e.n \in {"alt","ala"} -> e.n \o B(S(e.p)) \o B(S(e.id)) \o B(e.ty)
      [] e.n = "mk" -> "mk " \o S(e.p) \o B(e.fn) \o B(S(e.id)) \o B(e.v)
      [] e.n = "at" -> "at " \o S(e.p) \o B(S(e.h)) \o B(e.fn) \o B(S(e.id)) \o B(e.v)
      [] e.n \in {"add","join","rem"} -> e.n \o B(S(e.p)) \o B(S(e.h)) \o B(S(e.c))
      [] e.n = "rep" -> "rep " \o S(e.p) \o B(S(e.h)) \o B(S(e.c)) \o B(S(e.d))
      [] e.n = "retype" -> "retype " \o S(e.p) \o B(S(e.h)) \o B(e.ty)
      [] e.n = "root" -> "root " \o S(e.p) \o B(S(e.h))
      [] e.n = "find" -> "find " \o S(e.p) \o B(S(e.h)) \o B(S(e.id))
      [] e.n = "set" -> "set " \o S(e.p) \o B(S(e.h)) \o B(e.fn) \o B(S(e.id)) \o B(e.v)
      [] e.n = "sets" -> "sets " \o S(e.p) \o B(S(e.h)) \o B(S(e.c)) \o B(e.v)
      [] e.n = "wr" -> "wr " \o S(e.p) \o B(S(e.h)) \o B(e.g) \o B(e.v)
      [] e.n = "imp" -> "imp " \o S(e.p) \o B(e.v)
      [] e.n = "byval" -> "byval " \o S(e.p) \o B(S(e.h)) \o B(S(e.tag)) \o B(S(e.attr)) \o B(e.ty) \o B(e.v)
      [] e.n = "conv" -> "conv " \o S(e.p) \o B(e.k)
      [] e.n = "mkxb" -> "mkxb " \o S(e.p) \o B(e.k)
      [] e.n = "app" -> "app " \o S(e.p) \o B(S(e.h))
      [] e.n = "appl" -> "appl " \o S(e.p) \o B(S(e.h)) \o B(S(e.k))
      [] e.n = "probe" -> "probe " \o S(e.p) \o B(S(e.h))

(* a call is completed with the result the specification predicts; space is never short here *)
Sp(p) == IF IsOpen(p) THEN [al |-> Doc(p).al, fs |-> Doc(p).fs] ELSE [al |-> HeaderSize, fs |-> InitialSize]
With(e, r) == e @@ [r |-> r] @@ Sp(e.p)
R01(b) == IF b THEN 1 ELSE 0
Yes(b) == b = TRUE   \* a condition, not a choice of actions
Do(e) == op' = Line(e) /\ hist' = Append(hist, op')
(* a call that may create an element: the line ends with the handle the new element gets *)
DoNew(e, d0, d1) == op' = Line(e) \o (IF Len(d1.el) > Len(d0.el) THEN " =" \o S(Len(d1.el)) ELSE "") /\ hist' = Append(hist, op')
KeepNew(p, e, d) == DoNew(e, Doc(p), d) /\ files' = [files EXCEPT ![slots[p].f] = d] /\ UNCHANGED slots
(* exhaustively: every choice; in simulation: one at random, so that a step costs the same for large documents *)
Pick(Sx) == IF Mode = "sim" /\ Sx # {} THEN {RandomElement(Sx)} ELSE Sx
Room(p) == Len(Doc(p).el) < MaxEl
Hs(p) == El(Doc(p))
Parents(p) == {h \in Hs(p) : Doc(p).el[h].fc # 0 \/ Doc(p).el[h].fa # 0}
Members(p, h) == Range(Ch(Doc(p), h)) \cup Range(At(Doc(p), h))
Loose(p) == {h \in Hs(p) : Owner(Doc(p), h) = 0}
Tags(p) == {h \in Hs(p) : Doc(p).el[h].k = "t"}

(* effects without the space bookkeeping of the trace: Grow does not hold for constant al, so the pure operators of
   XbwDoc are used directly *)
Keep(p, d) == files' = [files EXCEPT ![slots[p].f] = d] /\ UNCHANGED slots

GMk(p) == "mk" \in Kinds /\ Room(p) /\ \E a \in Pick(MkSet) :
    LET e == [n |-> "mk", p |-> p, fn |-> a[1], id |-> a[2], v |-> a[3], len |-> a[4]]
        ty == TagStored(Doc(p), e.fn, e.id) IN
    KeepNew(p, e, IF ty = "" THEN Doc(p) ELSE AddEl(Doc(p), "t", e.id, ty, e.v, e.len))
GAt(p) == "at" \in Kinds /\ Room(p) /\ \E h \in Pick(Tags(p)), a \in Pick(AtSet) :
    LET e == [n |-> "at", p |-> p, h |-> h, fn |-> a[1], id |-> a[2], v |-> a[3], len |-> a[4]]
        ty == AttrStored(Doc(p), e.fn, e.id) IN
    KeepNew(p, e, IF ty = "" THEN Doc(p) ELSE Add(AddEl(Doc(p), "a", e.id, ty, e.v, e.len), h, NewH(Doc(p))))
GAdd(p) == "add" \in Kinds /\ \E c \in Pick(Loose(p)), h \in Pick(Tags(p)) :
    AddOk(Doc(p), h, c) /\ Do([n |-> "add", p |-> p, h |-> h, c |-> c]) /\ Keep(p, Add(Doc(p), h, c))
GJoin(p) == "join" \in Kinds /\ \E h \in Pick(Hs(p)), c \in Pick(Loose(p)) :
    JoinOk(Doc(p), h, c) /\ Yes(Owner(Doc(p), h) = 0 \/ AddOk(Doc(p), Owner(Doc(p), h), c)) /\ h # Doc(p).root
    /\ Do([n |-> "join", p |-> p, h |-> h, c |-> c]) /\ Keep(p, JoinRings(Doc(p), h, c))
GRem(p) == "rem" \in Kinds /\ \E h \in Pick(Parents(p)) : \E c \in Pick(Members(p, h)) :
    RemOk(Doc(p), h, c) /\ Do([n |-> "rem", p |-> p, h |-> h, c |-> c]) /\ Keep(p, Rem(Doc(p), h, c))
GRep(p) == "rep" \in Kinds /\ \E h \in Pick(Parents(p)), d \in Pick(Loose(p)) : \E c \in Pick(Members(p, h)) :
    RepOk(Doc(p), h, c, d) /\ Do([n |-> "rep", p |-> p, h |-> h, c |-> c, d |-> d]) /\ Keep(p, Rep(Doc(p), h, c, d))
GRoot(p) == "root" \in Kinds /\ \E h \in Pick(Tags(p) \cap Loose(p)) :
    Doc(p).el[h].nx = h /\ Do([n |-> "root", p |-> p, h |-> h])
    /\ Keep(p, IF Doc(p).root = 0 THEN [Doc(p) EXCEPT !.root = h] ELSE Doc(p))
GRetype(p) == "retype" \in Kinds /\ \E h \in Pick(Hs(p)), t \in Pick(RetypeTo) :
    /\ (t = "BLOB_STRING" => Doc(p).el[h].t \notin {"BLOB","HEX"}) /\ (Doc(p).el[h].t = "BLOB_STRING" => t \notin {"BLOB","HEX"})
    /\ Do([n |-> "retype", p |-> p, h |-> h, ty |-> t])
    /\ Keep(p, IF RetypeOk(Doc(p), h, t) THEN Retype(Doc(p), h, t) ELSE Doc(p))
GFind(p) == "find" \in Kinds /\ Room(p) /\ \E h \in Pick(Tags(p)), i \in Pick(FindIds) :
    KeepNew(p, [n |-> "find", p |-> p, h |-> h, id |-> i],
            IF FirstChild(Doc(p), h, i) # 0 \/ TagStored(Doc(p), "ptag", i) = "" THEN Doc(p) ELSE Add(AddEl(Doc(p), "t", i, "NULL", "x", 0), h, NewH(Doc(p))))
GSet(p) == "set" \in Kinds /\ Room(p) /\ \E h \in Pick(Tags(p)), a \in Pick(SetSet) :
    LET d == Doc(p)  m == SetMust(d, h, a[1], a[2], a[4])  c == FirstChild(d, h, a[2])  ty == TagStored(d, SetMk(a[1]), a[2]) IN
    KeepNew(p, [n |-> "set", p |-> p, h |-> h, fn |-> a[1], id |-> a[2], v |-> a[3], len |-> a[4]],
            CASE m = "keep" -> PutValue(d, c, a[3], a[4])
                 [] m = "new" -> Add(AddEl(d, "t", a[2], ty, a[3], a[4]), h, NewH(d))
                 [] m = "renew" -> Renew(d, h, c, ty, a[3], a[4])
                 [] m = "either" -> IF R4(a[4] + 1) <= R4(d.el[c].len + 1) THEN PutValue(d, c, a[3], a[4])
                                    ELSE IF ty = "" THEN d ELSE Renew(d, h, c, ty, a[3], a[4])
                 [] m = "refuse" -> d)
GSets(p) == "sets" \in Kinds /\ Room(p) /\ \E h \in Pick(Parents(p)), a \in Pick(StrSet) : \E c \in Pick(Range(Ch(Doc(p), h))) :
    LET d == Doc(p)  x == d.el[c]  ty == TagStored(d, "str", x.id) IN
    KeepNew(p, [n |-> "sets", p |-> p, h |-> h, c |-> c, v |-> a[1], len |-> a[2]],
            IF x.t \notin {"STRING","BLOB_STRING"} \/ x.v = a[1] THEN d
               ELSE IF (x.t = "BLOB_STRING" /\ a[2] + 1 <= x.cap) \/ (x.t = "STRING" /\ a[2] <= x.len) THEN PutValue(d, c, a[1], a[2])
               ELSE IF ty = "" THEN d ELSE Renew(d, h, c, ty, a[1], a[2]))
GWr(p) == "wr" \in Kinds /\ \E h \in Pick(Hs(p)), a \in Pick(WrSet) :
    Do([n |-> "wr", p |-> p, h |-> h, g |-> a[1], v |-> a[2]])
    /\ Keep(p, IF GetOk(Doc(p), h, a[1]) THEN [Doc(p) EXCEPT !.el[h].v = a[2]] ELSE Doc(p))
GProbe(p) == "probe" \in Kinds /\ \E h \in Pick(Hs(p)) : Do([n |-> "probe", p |-> p, h |-> h]) /\ UNCHANGED xvars
Rarely(n) == Mode # "sim" \/ RandomElement(1..n) = 1
GClear(p) == ("clear" \in Kinds \/ ("clear8" \in Kinds /\ Rarely(8))) /\ Do([n |-> "clear", p |-> p]) /\ Keep(p, ClearDoc(Doc(p)))
GDsize(p) == "dsize" \in Kinds /\ Do([n |-> "dsize", p |-> p]) /\ UNCHANGED xvars
GAllreg(p) == "allreg" \in Kinds /\ Do([n |-> "allreg", p |-> p]) /\ Keep(p, AllReg(Doc(p)))
NoMore(L) == Len(L) >= MaxNames
GReg(p) == \E nm \in Pick(RegNames), ty \in Pick(RegTypes) :
    LET d == Doc(p) IN
    \/ /\ "rt" \in Kinds /\ Yes(IdOf(d.T, nm) >= 0 \/ ~NoMore(d.T)) /\ Do([n |-> "rt", p |-> p, nm |-> nm, ty |-> ty]) /\ Keep(p, RegName(d, "T", nm, ty))
    \/ /\ "ra" \in Kinds /\ Yes(IdOf(d.P, nm) >= 0 \/ ~NoMore(d.P)) /\ Do([n |-> "ra", p |-> p, nm |-> nm, ty |-> ty])
       /\ Keep(p, IF d.To \/ IdOf(d.P, nm) >= 0 THEN RegName(d, "P", nm, ty) ELSE d)
    \/ /\ "rtid" \in Kinds
       /\ IF slots[p].chk
          THEN \E i \in Pick(0..Len(d.T)) :
                  /\ Do([n |-> "rtid", p |-> p, id |-> i, nm |-> nm, ty |-> ty])
                  /\ slots' = [slots EXCEPT ![p].cf = IF (i < Len(d.T) /\ d.T[i + 1] = <<nm, ty>>) \/ @ > 0 THEN @ ELSE @ + 1] /\ UNCHANGED files
          ELSE /\ IdOf(d.T, nm) < 0 /\ ~NoMore(d.T)
               /\ Do([n |-> "rtid", p |-> p, id |-> Len(d.T), nm |-> nm, ty |-> ty]) /\ Keep(p, RegId(d, "T", nm, ty))
    \/ /\ "raid" \in Kinds
       /\ IF slots[p].chk
          THEN \E i \in Pick(0..Len(d.P)) :
                  /\ Do([n |-> "raid", p |-> p, id |-> i, nm |-> nm, ty |-> ty])
                  /\ slots' = [slots EXCEPT ![p].cf = IF (i < Len(d.P) /\ d.P[i + 1] = <<nm, ty>>) \/ @ > 0 THEN @ ELSE @ + 1] /\ UNCHANGED files
          ELSE /\ IdOf(d.P, nm) < 0 /\ ~NoMore(d.P)
               /\ Do([n |-> "raid", p |-> p, id |-> Len(d.P), nm |-> nm, ty |-> ty]) /\ Keep(p, IF d.To THEN RegId(d, "P", nm, ty) ELSE d)
GAlt(p) == \E i \in Pick(AltIds), ty \in Pick(RegTypes) :
    LET d == Doc(p)
        ok(L) == i < Len(L) /\ Convertable(L[i + 1][2], ty) IN
    \/ /\ "alt" \in Kinds /\ i < Len(d.T) /\ Do([n |-> "alt", p |-> p, id |-> i, ty |-> ty])
       /\ Keep(p, IF ok(d.T) THEN [d EXCEPT !.T[i + 1][2] = ty] ELSE d)
    \/ /\ "ala" \in Kinds /\ i < Len(d.P) /\ Do([n |-> "ala", p |-> p, id |-> i, ty |-> ty])
       /\ Keep(p, IF ok(d.P) THEN [d EXCEPT !.P[i + 1][2] = ty] ELSE d)
NewChoice == IF Mode = "sim" THEN {IF RandomElement(1..6) = 1 THEN 1 ELSE 0} ELSE {0, 1}
GOpen == "open" \in Kinds /\ \E p \in Pick(Slots \ DOMAIN slots), f \in Pick({x \in Files : ~FileInUse(x)}), new \in NewChoice, m \in Pick(MaxSize) :
    LET d == File(f) IN
    /\ (new = 1 => d.st = "xbw")
    /\ Do([n |-> "open", p |-> p, f |-> f, max |-> m, new |-> new])
    /\ IF d.st = "junk" THEN UNCHANGED xvars
       ELSE /\ slots' = Upd(slots, p, [f |-> f, chk |-> (d.st = "xbw" /\ new = 0), cf |-> 0])
            /\ files' = IF d.st = "xbw" /\ new = 0 THEN files ELSE Upd(files, f, FreshDoc(IF d.st = "none" THEN m ELSE d.ms))
GClose == "close" \in Kinds /\ \E p \in Pick(Slots \cap DOMAIN slots) : Do([n |-> "close", p |-> p]) /\ slots' = Del(slots, p) /\ UNCHANGED files
GReinit == "reinit" \in Kinds /\ \E p \in Pick(Slots \cap DOMAIN slots) : Do([n |-> "reinit", p |-> p]) /\ slots' = [slots EXCEPT ![p].chk = TRUE, ![p].cf = 0] /\ UNCHANGED files
GKill == "kill" \in Kinds /\ DOMAIN slots # {} /\ Do([n |-> "kill", p |-> 0]) /\ slots' = Nothing /\ UNCHANGED files
GPeek == "peek" \in Kinds /\ \E f \in Pick(Files), m \in Pick(MaxSize) : File(f).st # "none" /\ Do([n |-> "peek", p |-> 0, f |-> f, max |-> m]) /\ UNCHANGED xvars
GPatch == "patch" \in Kinds /\ \E f \in Pick(Files), x \in Pick(Patches) :
    /\ ~FileInUse(f) /\ File(f).st = "xbw" /\ PatchOk(File(f), x[1], x[2])
    /\ Do([n |-> "patch", p |-> 0, f |-> f, at |-> x[1], v |-> x[2]]) /\ files' = Upd(files, f, [st |-> "junk"]) /\ UNCHANGED slots
GResize == "resize" \in Kinds /\ \E f \in Pick(Files), v \in Pick({92, 4096, 20480}) :
    /\ ~FileInUse(f) /\ File(f).st = "xbw" /\ v # File(f).fs
    /\ Do([n |-> "resize", p |-> 0, f |-> f, v |-> v]) /\ files' = Upd(files, f, [st |-> "junk"]) /\ UNCHANGED slots

GObs == "obs" \in Kinds /\ op # "!obs 0" /\ op' = "!obs 0" /\ hist' = Append(hist, op') /\ UNCHANGED xvars
GImp(p) == "imp" \in Kinds /\ \E x \in Pick(Imports) :
    /\ Len(Doc(p).T) + Len(x[2]) <= MaxNames /\ Len(Doc(p).P) + Len(x[3]) <= MaxNames
    /\ Do([n |-> "imp", p |-> p, v |-> x[1]])
    /\ Keep(p, LET d == Doc(p)  d1 == RegAll(d, "T", x[2]) IN IF d1.To THEN RegAll(d1, "P", x[3]) ELSE d1)
GByval(p) == "byval" \in Kinds /\ \E h \in Pick(Tags(p)), i \in Pick(FindIds), x \in Pick(ValSet) :
    Do([n |-> "byval", p |-> p, h |-> h, tag |-> i, attr |-> x[1], ty |-> x[2], v |-> x[3]]) /\ UNCHANGED xvars
GConv(p) == "conv" \in Kinds /\ \E k \in Pick({"u", "p"}) : Do([n |-> "conv", p |-> p, k |-> k]) /\ UNCHANGED xvars
GMkxb(p) == "mkxb" \in Kinds /\ Rarely(4) /\ Yes(Doc(p).root = 0 \/ Complete(Doc(p))) /\ \E k \in Pick({"u", "p", "c", "n"}) : Do([n |-> "mkxb", p |-> p, k |-> k]) /\ UNCHANGED xvars
GApp(p) == "app" \in Kinds /\ \E h \in Pick(Tags(p)) : Do([n |-> "app", p |-> p, h |-> h]) /\ UNCHANGED xvars
GAppl(p) == "appl" \in Kinds /\ \E h \in Pick(Tags(p)), k \in Pick(Spaces) : Do([n |-> "appl", p |-> p, h |-> h, k |-> k]) /\ UNCHANGED xvars
GMkfile == "mkfile" \in Kinds /\ \E f \in Pick(Files), v \in Pick(Junk) : File(f).st = "none" /\ Do([n |-> "mkfile", p |-> 0, f |-> f, v |-> v]) /\ files' = Upd(files, f, IF Len(v) < HeaderSize THEN NoDoc ELSE [st |-> "junk"]) /\ UNCHANGED slots

More == op # "end" /\ Len(hist) < Len(Setup) + Depth
PerSlot(G(_)) == More /\ \E p \in Pick({x \in Slots : IsOpen(x)}) : G(p)
GEnd == Mode = "sim" /\ op # "end" /\ Len(hist) = Len(Setup) + Depth /\ PrintT("HE" \o ToJson(hist)) /\ op' = "end" /\ UNCHANGED <<slots, files, hist>>
GNext == \/ PerSlot(GMk) \/ PerSlot(GAt) \/ PerSlot(GAdd) \/ PerSlot(GJoin) \/ PerSlot(GRem) \/ PerSlot(GRep) \/ PerSlot(GRoot)
         \/ PerSlot(GRetype) \/ PerSlot(GFind) \/ PerSlot(GSet) \/ PerSlot(GSets) \/ PerSlot(GWr) \/ PerSlot(GProbe)
         \/ PerSlot(GClear) \/ PerSlot(GDsize) \/ PerSlot(GAllreg) \/ PerSlot(GReg) \/ PerSlot(GAlt) \/ PerSlot(GImp) \/ PerSlot(GByval) \/ PerSlot(GConv)
         \/ PerSlot(GMkxb) \/ PerSlot(GApp) \/ PerSlot(GAppl)
         \/ (More /\ GOpen) \/ (More /\ GClose) \/ (More /\ GReinit) \/ (More /\ GKill) \/ (More /\ GPeek)
         \/ (More /\ GPatch) \/ (More /\ GResize) \/ (More /\ GMkfile) \/ (More /\ GObs) \/ GEnd

(* the state after the setup calls *)
RECURSIVE After(_, _)
After(st, L) ==
    IF L = <<>> THEN st ELSE
    LET e == Head(L)
        d == IF e.n = "open" THEN NoDoc ELSE st.fi[st.sl[e.p].f]
        put(x) == [st EXCEPT !.fi[st.sl[e.p].f] = x]
        nx == CASE e.n = "open" -> [st EXCEPT !.sl = Upd(@, e.p, [f |-> e.f, chk |-> FALSE, cf |-> 0]), !.fi = Upd(@, e.f, FreshDoc(e.max))]
                [] e.n = "rtid" -> put(RegId(d, "T", e.nm, e.ty))
                [] e.n = "raid" -> put(RegId(d, "P", e.nm, e.ty))
                [] e.n = "allreg" -> put(AllReg(d))
                [] e.n = "mk" -> put(AddEl(d, "t", e.id, TagStored(d, e.fn, e.id), e.v, e.len))
                [] e.n \in {"mkxb","app"} -> st
                [] e.n = "root" -> put([d EXCEPT !.root = e.h])
                [] e.n = "add" -> put(Add(d, e.h, e.c))
    IN After(nx, Tail(L))
GInit == /\ LET st == After([sl |-> Nothing, fi |-> Nothing], Setup) IN slots = st.sl /\ files = st.fi
         /\ hist = [i \in 1..Len(Setup) |-> Line(Setup[i]) \o (IF Setup[i].n = "mk" THEN " =" \o S(Setup[i].new) ELSE "")] /\ op = ""
GSpec == GInit /\ [][GNext]_gvars
GView == <<slots, files>>
(* cover: every transition once *)
Emit == Mode # "cover" \/ PrintT((IF xvars' = xvars THEN "HL" ELSE "HE") \o ToJson(hist'))  \* L: the document stays as it is
Inv == XInv

=========================================================================
