---------------------------- MODULE XbDiskTrace ----------------------------
(* Events of disk_driver against XbDisk. *)
EXTENDS XbDisk, Json, IOUtils
VARIABLES l, K
Trace == ndJsonDeserialize(IOEnv.TRACE)
Disk(e) == [p \in {e.files[i].x : i \in 1..Len(e.files)} |-> LET i == CHOOSE i \in 1..Len(e.files) : e.files[i].x = p IN [c |-> e.files[i].c, d |-> e.files[i].d]]
Full(e) == LET x == IF e.k = "xbw" THEN ".xbw" ELSE ".xb" IN IF e.def = 1 THEN Target(e.s, x) ELSE Target(e.t, x)
Good(e) == LET L == Disk(e) IN
    CASE e.n = "put" -> L = With(K, Path(e.s), IF e.k = "junk" THEN [c |-> "part", d |-> -1] ELSE [c |-> e.k, d |-> e.d])
      [] e.n = "conv" -> Conv(K, L, e.s, Full(e), e.k, e.lim >= 0 /\ e.lim < e.need, e.r = 1)
      [] e.n = "open" -> Open(K, L, e.s, e.d) /\ (e.d >= 0 => LET N == OpenName(e.s) IN e.now = (IF N = Clean(e.s) THEN FoldLeft(LAMBDA s, x : s \o x, "", e.s) ELSE FoldLeft(LAMBDA s, x : s \o x, "", SubSeq(e.s, 1, Len(e.s) - Len(N)) \o N)))
      [] e.n = "get" -> Get(K, L, e.s, e.r = 1) /\ (e.err = 1 <=> e.r = 0) /\ (e.r = 1 => LET N == Target(e.s, ".xb") IN e.now = FoldLeft(LAMBDA s, x : s \o x, "", SubSeq(e.s, 1, Len(e.s) - Len(N)) \o N))
Init == l = 1 /\ K = [x \in {} |-> None]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ (IF e.n = "RESET" THEN PrintT(<<"AT", l>>) ELSE IF e.n = "CRASH" THEN FALSE ELSE Good(e) = TRUE)
           /\ K' = (IF e.n = "RESET" THEN [x \in {} |-> None] ELSE Disk(e))
        /\ l' = l + 1
TSpec == Init /\ [][Next]_<<l, K>>
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
============================================================================
