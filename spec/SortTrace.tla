---------------------------- MODULE SortTrace ----------------------------
(* One event: the array of keys a, sorted by the real routine f ("merge", "quick") with elements of size z under mode o:
   res the result as <<key, place in the input>>; bad: bytes of elements torn or written outside; ctx: comparisons
   that did not get the caller's context.                                                                            *)
EXTENDS Sort, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Good(e) ==
    LET s == [i \in 1..Len(e.res) |-> [k |-> e.res[i][1], i |-> e.res[i][2]]] IN
    /\ e.bad = 0 /\ e.ctx = 0
    /\ IF e.f = "merge" THEN (IF Len(e.a) > 60 THEN Len(s) = Len(e.a) /\ GoodMerge(e.o, e.a, s) ELSE s = StableOf(e.o, Input(e.a)))
       ELSE GoodSort(e.o, e.a, s)
Init == l = 1
Next == l <= Len(Trace) /\ LET e == Trace[l] IN (IF e.n = "RESET" THEN PrintT(<<"AT", l>>) ELSE IF e.n = "CRASH" THEN FALSE ELSE Good(e)) /\ l' = l + 1
TSpec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=========================================================================
