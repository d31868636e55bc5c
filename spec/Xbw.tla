------------------------------- MODULE Xbw -------------------------------
(* The shared-memory document library: several processes' worth of slots (BW_plugin objects) over several files.
   One action per public API call.  Every action takes the call as a record e:
     e.n name, e.p slot, arguments, e.r result, e.al / e.fs allocator position and file size after the call.
   In XbwGen the call is predicted, in XbwTrace it is the one the real library made.

   As the file is a shared mapping, a completed operation is in the file: the state of the document is the state of
   the file, closing or killing the process changes nothing in it.                                            *)
EXTENDS XbwDoc

VARIABLES slots,   \* open slot -> [f, chk, cf]   chk: opened over existing data, cf: disagreeing registrations
          files    \* file -> document

xvars == <<slots, files>>
Nothing == [x \in {} |-> 0]
XInit == slots = Nothing /\ files = Nothing
Upd(fn, k, v) == (k :> v) @@ fn
Del(fn, k) == [x \in DOMAIN fn \ {k} |-> fn[x]]

Doc(p) == files[slots[p].f]
IsOpen(p) == p \in DOMAIN slots
File(f) == IF f \in DOMAIN files THEN files[f] ELSE NoDoc
FileInUse(f) == \E p \in DOMAIN slots : slots[p].f = f

(* The file grows by whole pages up to the maximal size of the pool.  An operation that needs n bytes may be refused
   only when they, some alignment and what is kept in reserve do not fit; the creating calls of the plugin itself keep
   16 kB in reserve, elements made by the pool (attributes, set functions) and names do not.                         *)
Page(n) == 4096 * ((n + 4095) \div 4096)
Reserve == 16384
Short(d, n) == Page(d.al + n + 64) > d.ms
Tight(d, n) == Page(d.al + 2 * n + 64 + Reserve) > d.ms

(* document of slot p becomes d with the space figures of the call *)
Put(p, d, e) == files' = [files EXCEPT ![slots[p].f] = [d EXCEPT !.al = e.al, !.fs = e.fs]]
SpaceOk(d, e) == HeaderSize <= e.al /\ e.al <= e.fs /\ e.fs <= d.ms /\ d.fs <= e.fs
(* the allocator moved by at least lo and wasted not more than needed *)
Grow(d, e, lo) == e.al - d.al >= lo /\ e.al - d.al <= 2 * lo + 64
Same(d, e) == e.al = d.al /\ e.fs = d.fs
Refused(d, e) == e.al >= d.al /\ e.al <= d.al + 8     \* alignment only
NewH(d) == Len(d.el) + 1
PoolFns == {"ptag","pstr","pi32","pi64","psha1","ptime"}

(* ---------------------------------------------------------------- processes and files *)
Open(e) ==
    /\ ~IsOpen(e.p)
    /\ LET d == File(e.f) IN
       \/ /\ e.r = 1
          /\ d.st = "none" \/ (d.st = "xbw" /\ e.new = 1)
          /\ files' = Upd(files, e.f, FreshDoc(IF d.st = "none" THEN e.max ELSE d.ms))
          /\ e.al = HeaderSize /\ e.fs = InitialSize
          /\ slots' = Upd(slots, e.p, [f |-> e.f, chk |-> FALSE, cf |-> 0])
       \/ /\ d.st = "xbw" /\ e.new = 0 /\ e.r = 1
          /\ e.al = d.al /\ e.fs = d.fs
          /\ slots' = Upd(slots, e.p, [f |-> e.f, chk |-> TRUE, cf |-> 0])
          /\ UNCHANGED files
       \/ /\ d.st = "junk" /\ e.r = 0 /\ e.same = 1
          /\ UNCHANGED xvars
Close(e) == IsOpen(e.p) /\ e.r = 1 /\ slots' = Del(slots, e.p) /\ UNCHANGED files
Reinit(e) == IsOpen(e.p) /\ e.r = 1 /\ slots' = [slots EXCEPT ![e.p].chk = TRUE, ![e.p].cf = 0] /\ UNCHANGED files /\ Same(Doc(e.p), e)
Kill(e) == slots' = Nothing /\ UNCHANGED files
(* a file that is not a document *)
MkFile(e) == /\ ~FileInUse(e.f) /\ files' = Upd(files, e.f, IF e.len < HeaderSize THEN NoDoc ELSE [st |-> "junk"])  \* too short for a header: a new document may be made of it
              /\ UNCHANGED slots
(* header fields *)
HdrId == 4  HdrVersion == 28  HdrFileSize == 32  HdrMmap == 36  HdrAlloc == 52  HdrLimit == 56
PatchBad(d, at, v) ==
    CASE at \in {HdrId, HdrVersion} -> v # 0
      [] at \in {HdrFileSize, HdrLimit} -> v # d.fs
      [] at = HdrMmap -> v < d.fs
      [] at = HdrAlloc -> v < HeaderSize \/ v > d.fs
PatchOk(d, at, v) == at \in {HdrId, HdrVersion, HdrFileSize, HdrLimit, HdrMmap, HdrAlloc} /\ PatchBad(d, at, v)
Patch(e) ==
    /\ ~FileInUse(e.f) /\ File(e.f).st = "xbw" /\ PatchOk(File(e.f), e.at, e.v)
    /\ files' = Upd(files, e.f, [st |-> "junk"]) /\ UNCHANGED slots
Resize(e) ==
    /\ ~FileInUse(e.f) /\ File(e.f).st = "xbw" /\ e.v >= HeaderSize /\ e.v # File(e.f).fs
    /\ files' = Upd(files, e.f, [st |-> "junk"]) /\ UNCHANGED slots
Peek(e) == e.r = 1 /\ UNCHANGED xvars

(* ---------------------------------------------------------------- dictionary *)
RegTagId(e) ==
    /\ IsOpen(e.p)
    /\ LET d == Doc(e.p)
           known == e.id >= 0 /\ e.id < Len(d.T) /\ d.T[e.id + 1] = <<e.nm, e.ty>> IN
       IF slots[e.p].chk
       THEN /\ e.r = (IF known THEN 1 ELSE 0) /\ Same(d, e)
            /\ slots' = [slots EXCEPT ![e.p].cf = IF known THEN @ ELSE @ + 1] /\ UNCHANGED files
       ELSE /\ e.id = Len(d.T) /\ IdOf(d.T, e.nm) < 0 /\ UNCHANGED slots
            /\ \/ e.r = 1 /\ Put(e.p, RegId(d, "T", e.nm, e.ty), e)
               \/ e.r = 0 /\ Short(d, NamesSize(d.T) + Len(e.nm)) /\ Put(e.p, d, e)
RegAttrId(e) ==
    /\ IsOpen(e.p)
    /\ LET d == Doc(e.p)
           known == e.id >= 0 /\ e.id < Len(d.P) /\ d.P[e.id + 1] = <<e.nm, e.ty>> IN
       IF slots[e.p].chk
       THEN /\ e.r = (IF known THEN 1 ELSE 0) /\ Same(d, e)
            /\ slots' = [slots EXCEPT ![e.p].cf = IF known THEN @ ELSE @ + 1] /\ UNCHANGED files
       ELSE /\ e.id = Len(d.P) /\ IdOf(d.P, e.nm) < 0 /\ UNCHANGED slots
            /\ \/ e.r = 1 /\ d.To /\ Put(e.p, RegId(d, "P", e.nm, e.ty), e)
               \/ e.r = 0 /\ (~d.To \/ Short(d, NamesSize(d.P) + Len(e.nm))) /\ Put(e.p, d, e)
RegTag(e) ==
    /\ IsOpen(e.p) /\ UNCHANGED slots
    /\ LET d == Doc(e.p)  d1 == RegName(d, "T", e.nm, e.ty) IN
       \/ e.r = IdOf(d1.T, e.nm) /\ Put(e.p, d1, e)
       \/ e.r < 0 /\ IdOf(d.T, e.nm) < 0 /\ Short(d, NamesSize(d.T) + Len(e.nm)) /\ Put(e.p, d, e)
RegAttr(e) ==
    /\ IsOpen(e.p) /\ UNCHANGED slots
    /\ LET d == Doc(e.p)  d1 == RegName(d, "P", e.nm, e.ty) IN
       \/ e.r = IdOf(d1.P, e.nm) /\ (d.To \/ IdOf(d.P, e.nm) >= 0) /\ Put(e.p, d1, e)
       \/ e.r < 0 /\ IdOf(d.P, e.nm) < 0 /\ (~d.To \/ Short(d, NamesSize(d.P) + Len(e.nm))) /\ Put(e.p, d, e)
AltTag(e) ==
    /\ IsOpen(e.p) /\ UNCHANGED slots
    /\ LET d == Doc(e.p)
           ok == e.id >= 0 /\ e.id < Len(d.T) /\ Convertable(d.T[e.id + 1][2], e.ty) IN
       /\ e.r = (IF ok THEN 1 ELSE 0) /\ Same(d, e)
       /\ Put(e.p, IF ok THEN [d EXCEPT !.T[e.id + 1][2] = e.ty] ELSE d, e)
AltAttr(e) ==
    /\ IsOpen(e.p) /\ UNCHANGED slots
    /\ LET d == Doc(e.p)
           ok == e.id >= 0 /\ e.id < Len(d.P) /\ Convertable(d.P[e.id + 1][2], e.ty) IN
       /\ e.r = (IF ok THEN 1 ELSE 0) /\ Same(d, e)
       /\ Put(e.p, IF ok THEN [d EXCEPT !.P[e.id + 1][2] = e.ty] ELSE d, e)
RECURSIVE RegAll(_, _, _)
RegAll(d, t, L) == IF L = <<>> THEN d ELSE RegAll(RegName(d, t, Head(L)[1], Head(L)[2]), t, Tail(L))
Import(e) == \* both dictionaries of another document
    /\ IsOpen(e.p) /\ UNCHANGED slots /\ e.r = 1
    /\ LET d == Doc(e.p) IN Put(e.p, RegAll(RegAll(d, "T", e.it), "P", e.ip), e)
AllRegistered(e) ==
    /\ IsOpen(e.p) /\ UNCHANGED slots
    /\ LET d == Doc(e.p) IN
       \/ e.r = (IF slots[e.p].cf = 0 THEN 1 ELSE 0) /\ Put(e.p, AllReg(d), e)
       \/ e.r = 0 /\ Tight(d, 4 * (Len(d.T) + Len(d.P))) /\ Same(d, e) /\ UNCHANGED files

(* ---------------------------------------------------------------- elements *)
Make(e) ==
    /\ IsOpen(e.p) /\ UNCHANGED slots
    /\ LET d == Doc(e.p)  ty == TagStored(d, e.fn, e.id)  n == ElemSize + ValueSpace(ty, e.len) IN
       \/ e.r = NewH(d) /\ ty # "" /\ Put(e.p, AddEl(d, "t", e.id, ty, e.v, e.len), e) /\ Grow(d, e, n)
       \/ e.r = 0 /\ (ty = "" \/ Short(d, n) \/ (e.fn \notin PoolFns /\ Tight(d, n))) /\ Put(e.p, d, e) /\ Refused(d, e)
MakeAttr(e) ==
    /\ IsOpen(e.p) /\ UNCHANGED slots
    /\ LET d == Doc(e.p)  ty == AttrStored(d, e.fn, e.id)  n == ElemSize + ValueSpace(ty, e.len) IN
       \/ e.r = NewH(d) /\ ty # "" /\ Put(e.p, Add(AddEl(d, "a", e.id, ty, e.v, e.len), e.h, NewH(d)), e) /\ Grow(d, e, n)
       \/ e.r = 0 /\ (ty = "" \/ Short(d, n)) /\ Put(e.p, d, e) /\ Refused(d, e)
AddChild(e) == LET d == Doc(e.p) IN IsOpen(e.p) /\ UNCHANGED slots /\ AddOk(d, e.h, e.c) /\ e.r = e.h /\ Put(e.p, Add(d, e.h, e.c), e) /\ Same(d, e)
JoinLists(e) == LET d == Doc(e.p) IN IsOpen(e.p) /\ UNCHANGED slots /\ JoinOk(d, e.h, e.c) /\ e.r = e.h /\ Put(e.p, JoinRings(d, e.h, e.c), e) /\ Same(d, e)
Remove(e) == LET d == Doc(e.p) IN IsOpen(e.p) /\ UNCHANGED slots /\ RemOk(d, e.h, e.c) /\ e.r = e.h /\ Put(e.p, Rem(d, e.h, e.c), e) /\ Same(d, e)
Replace(e) == LET d == Doc(e.p) IN IsOpen(e.p) /\ UNCHANGED slots /\ RepOk(d, e.h, e.c, e.d) /\ e.r = e.h /\ Put(e.p, Rep(d, e.h, e.c, e.d), e) /\ Same(d, e)
DoRetype(e) == LET d == Doc(e.p) IN
    /\ IsOpen(e.p) /\ UNCHANGED slots /\ Same(d, e)
    /\ IF RetypeOk(d, e.h, e.ty) THEN e.r = e.h /\ Put(e.p, Retype(d, e.h, e.ty), e) ELSE e.r = 0 /\ UNCHANGED files
SetRoot(e) == LET d == Doc(e.p) IN
    /\ IsOpen(e.p) /\ UNCHANGED slots /\ Same(d, e)
    /\ IF d.root = 0 THEN e.r = e.h /\ Put(e.p, [d EXCEPT !.root = e.h], e) ELSE e.r = d.root /\ UNCHANGED files
FindOrMake(e) == LET d == Doc(e.p)  c == FirstChild(d, e.h, e.id) IN
    /\ IsOpen(e.p) /\ UNCHANGED slots
    /\ IF c # 0 THEN e.r = c /\ UNCHANGED files /\ Same(d, e)
       ELSE \/ e.r = NewH(d) /\ TagStored(d, "ptag", e.id) # "" /\ Put(e.p, Add(AddEl(d, "t", e.id, "NULL", "x", 0), e.h, NewH(d)), e) /\ Grow(d, e, ElemSize)
            \/ e.r = 0 /\ (TagStored(d, "ptag", e.id) = "" \/ Short(d, ElemSize)) /\ Put(e.p, d, e) /\ Refused(d, e)
SetChild(e) ==
    LET d == Doc(e.p)  c == FirstChild(d, e.h, e.id)  m == SetMust(d, e.h, e.fn, e.id, e.len)
        ty == TagStored(d, SetMk(e.fn), e.id)  n == ElemSize + ValueSpace(ty, e.len)
        keep == e.r = c /\ Put(e.p, PutValue(d, c, e.v, e.len), e) /\ Same(d, e)
        make == e.r = NewH(d) /\ Put(e.p, Add(AddEl(d, "t", e.id, ty, e.v, e.len), e.h, NewH(d)), e) /\ Grow(d, e, n)
        renew == e.r = NewH(d) /\ ty # "" /\ Put(e.p, Renew(d, e.h, c, ty, e.v, e.len), e) /\ Grow(d, e, n)
        refuse == e.r = 0 /\ Put(e.p, d, e) /\ Refused(d, e)
    IN /\ IsOpen(e.p) /\ UNCHANGED slots
       /\ CASE m = "keep" -> keep
            [] m = "new" -> make \/ (Short(d, n) /\ refuse)
            [] m = "renew" -> renew \/ (Short(d, n) /\ refuse)
            [] m = "either" -> keep \/ renew \/ ((Short(d, n) \/ ty = "") /\ refuse)
            [] m = "refuse" -> refuse
(* setStr: e.c, a string element in the children of e.h; e.ch says whether the call reports a change *)
SetString(e) ==
    LET d == Doc(e.p)  x == d.el[e.c]  ty == TagStored(d, "str", x.id)  n == ElemSize + ValueSpace(ty, e.len)
        renew == e.r = NewH(d) /\ e.ch = 1 /\ ty # "" /\ Put(e.p, Renew(d, e.h, e.c, ty, e.v, e.len), e) /\ Grow(d, e, n)
        keep == e.r = 0 /\ e.ch = 1 /\ Put(e.p, PutValue(d, e.c, e.v, e.len), e) /\ Same(d, e)
        refuse == e.r = 0 /\ e.ch = 0 /\ Put(e.p, d, e) /\ Refused(d, e)
    IN /\ IsOpen(e.p) /\ UNCHANGED slots
       /\ e.c \in Range(Ch(d, e.h))
       /\ IF x.t \notin {"STRING","BLOB_STRING"} \/ x.v = e.v THEN refuse /\ Same(d, e)
          ELSE IF (x.t = "BLOB_STRING" /\ e.len + 1 <= x.cap) \/ (x.t = "STRING" /\ e.len <= x.len) THEN keep
          ELSE (x.t = "STRING" /\ keep) \/ renew \/ ((Tight(d, n) \/ ty = "") /\ refuse)
(* writing through the pointer a typed getter returns *)
GetOk(d, h, g) ==
    LET s == SymType(d, h)  t == d.el[h].t IN
    CASE g = "i32" -> s \in IS4 /\ t \in IS4
      [] g = "f" -> s = "FLOAT" /\ t \in IS4
      [] g = "tm" -> s = "UNIX_TIME" /\ t \in IS4
      [] g = "i64" -> (s = "INT64" /\ t \in IS8) \/ t \in {"INT64","UNIX_TIME64_MSEC"}
      [] g = "u64" -> s = "UINT64" /\ t \in IS8
      [] g = "guid" -> s = "GUID" /\ t = "GUID"
      [] g = "str" -> t \in {"STRING","BLOB_STRING"}
WriteThrough(e) ==
    LET d == Doc(e.p)  ok == GetOk(d, e.h, e.g) IN
    /\ IsOpen(e.p) /\ UNCHANGED slots /\ Same(d, e) /\ e.r = (IF ok THEN 1 ELSE 0)
    /\ IF ok THEN Put(e.p, [d EXCEPT !.el[e.h].v = e.v], e) ELSE UNCHANGED files
DataSize(d) == d.al - HeaderSize - NamesSize(d.T) - NamesSize(d.P)
Clear(e) == LET d == Doc(e.p)  c == ClearDoc(d)  names == HeaderSize + NamesSize(d.T) + NamesSize(d.P) IN
    /\ IsOpen(e.p) /\ UNCHANGED slots /\ e.r = 1
    /\ e.al = names + 4 * (Len(d.T) + Len(d.P))
    /\ e.ds = e.al - names
    /\ Put(e.p, c, e)
GetDataSize(e) == IsOpen(e.p) /\ Same(Doc(e.p), e) /\ e.r = DataSize(Doc(e.p)) /\ UNCHANGED xvars

XStep(e) ==
    CASE e.n = "open" -> Open(e) [] e.n = "close" -> Close(e) [] e.n = "reinit" -> Reinit(e) [] e.n = "kill" -> Kill(e)
      [] e.n = "mkfile" -> MkFile(e) [] e.n = "patch" -> Patch(e) [] e.n = "resize" -> Resize(e) [] e.n = "peek" -> Peek(e)
      [] e.n = "rtid" -> RegTagId(e) [] e.n = "raid" -> RegAttrId(e) [] e.n = "rt" -> RegTag(e) [] e.n = "ra" -> RegAttr(e)
      [] e.n = "alt" -> AltTag(e) [] e.n = "ala" -> AltAttr(e) [] e.n = "imp" -> Import(e) [] e.n = "allreg" -> AllRegistered(e)
      [] e.n = "mk" -> Make(e) [] e.n = "at" -> MakeAttr(e) [] e.n = "add" -> AddChild(e) [] e.n = "join" -> JoinLists(e)
      [] e.n = "rem" -> Remove(e) [] e.n = "rep" -> Replace(e) [] e.n = "retype" -> DoRetype(e) [] e.n = "root" -> SetRoot(e)
      [] e.n = "find" -> FindOrMake(e) [] e.n = "set" -> SetChild(e) [] e.n = "sets" -> SetString(e)
      [] e.n = "wr" -> WriteThrough(e) [] e.n = "clear" -> Clear(e) [] e.n = "dsize" -> GetDataSize(e)

XInv == \A f \in DOMAIN files : files[f].st = "xbw" => WellFormed(files[f])
=========================================================================
