--------------------------- MODULE XbImageTrace ---------------------------
(* Events img and mut of xb_driver: the bytes of a file and what the reader made of it. *)
EXTENDS XbImage, Json, IOUtils
VARIABLES l, b, D
Trace == ndJsonDeserialize(IOEnv.TRACE)
GoodTable(b0, T, L) == LET N == TLCEval(Names(b0, T))  Ty == TLCEval(NameTypes(b0, T))  sorted == Sorted(N) IN
    /\ Len(L) = T.n
    /\ \A k \in 1..T.n : L[k].n = N[k] /\ L[k].t = Ty[k] /\ (IF sorted THEN L[k].id = k - 1 ELSE L[k].id = -1 \/ N[L[k].id + 1] = N[k])
Shown(b0, R, e) ==
    /\ e.chk = 1 /\ e.root = R.root
    /\ GoodTable(b0, R.t, e.tags) /\ GoodTable(b0, R.p, e.pars)
    /\ e.big = 0 =>
         /\ LET I == TLCEval(Items(b0, 0, 0)) IN Len(e.items) = Len(I) /\ \A i \in 1..Len(I) : e.items[i] = I[i] @@ [bad |-> 0]
         /\ e.nx = Walk(b0, R.root, 0, Extra(b0, LenOf(b0, 0), R.t.n, R.p.n))
Opened(b0, e) == LET R == Read(b0) IN CASE R.st = "good" -> e.ok = 1 /\ Shown(b0, R, e) [] R.st = "bad" -> e.ok = 0 [] OTHER -> TRUE
(* an image the library wrote is sound and has the elements and attributes of the document *)
Same(b0) == LET R == Read(b0)  I == TLCEval(Items(b0, R.root, 0))  N == TLCEval(Names(b0, R.t))  P == TLCEval(Names(b0, R.p))  nm(L, i) == IF i \in 0..(Len(L) - 1) THEN L[i + 1] ELSE <<>> IN
    /\ R.st = "good" /\ Len(I) = Len(D)
    /\ \A i \in 1..Len(D) : I[i].d = D[i].d /\ nm(N, I[i].id) = D[i].n /\ [k \in 1..Len(I[i].a) |-> nm(P, I[i].a[k][1])] = [k \in 1..Len(D[i].a) |-> D[i].a[k].n]
Put(f, P) == LET RECURSIVE F(_, _)  F(g, i) == IF i > Len(P) THEN g ELSE F([g EXCEPT ![P[i][1] + 1] = P[i][2]], i + 1) IN F(f, 1)
Good(e) == CASE e.n = "doc" -> e.rp = 1 /\ e.ru = 1
             [] e.n = "img" -> Opened(e.b, e) /\ (e.w # "x" => Same(e.b))
             [] e.n = "mut" -> Opened(SubSeq(Put(b, e.p), 1, e.cut), e)
Init == l = 1 /\ b = <<>> /\ D = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ (IF e.n = "RESET" THEN PrintT(<<"AT", l>>) ELSE IF e.n = "CRASH" THEN FALSE ELSE Good(e) = TRUE)
           /\ b' = (IF e.n = "img" THEN e.b ELSE IF e.n = "RESET" THEN <<>> ELSE b)
           /\ D' = (IF e.n = "doc" THEN e.doc ELSE IF e.n = "RESET" THEN <<>> ELSE D)
        /\ l' = l + 1
TSpec == Init /\ [][Next]_<<l, b, D>>
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=========================================================================
