---------------------------- MODULE JsmnTrace ----------------------------
(* One event: a text t (character codes) and what the real tokenizer did with it:
   c count without storage; f full parse [r, pos, sup, tk]; k parses with 0.. tokens of storage, each continued with
   enough storage; d the text cut after every character, then continued with all of it.                            *)
EXTENDS Jsmn, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tks(tk) == [i \in 1..Len(tk) |-> <<tk[i].ty, tk[i].s, tk[i].e, tk[i].n, tk[i].p>>]
St(a, o) == a.r = o.r /\ Tks(a.st.tk) = o.tk /\ a.st.pos = o.pos /\ a.st.sup = o.sup
(* the parser stops at the text it cannot use; after a bracket that does not fit nothing is promised *)
StE(a, o) == IF a.r = INVAL THEN o.r = INVAL ELSE St(a, o)
Good(e) ==
    LET L == Len(e.t)  f == Parse(e.t, L, InitSt, Max) IN
    /\ e.c = Count(e.t, L)
    /\ StE(f, e.f)
    /\ e.over = 0
    /\ \A k \in DOMAIN e.k : LET a == Parse(e.t, L, InitSt, k - 1)  o == e.k[k] IN
          /\ o.r = a.r
          /\ (a.r = NOMEM => o.pos = a.st.pos /\ o.nx = Len(a.st.tk) /\ StE(f, o.f))
    /\ \A c \in DOMAIN e.d : LET a == Parse(e.t, c - 1, InitSt, Max)  b == Parse(e.t, L, a.st, Max)  o == e.d[c] IN
          /\ o.r = a.r
          /\ (a.r # INVAL => StE(b, o.f))
Init == l = 1
Next == l <= Len(Trace) /\ LET e == Trace[l] IN (IF e.n = "RESET" THEN PrintT(<<"AT", l>>) ELSE IF e.n = "CRASH" THEN FALSE ELSE Good(e)) /\ l' = l + 1
TSpec == Init /\ [][Next]_l
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=========================================================================
