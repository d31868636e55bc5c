------------------------------- MODULE Jsmn -------------------------------
(* The JSON tokenizer: a pushdown automaton over character codes that fills an array of tokens.

   A parser state is [pos, tk, sup]: characters consumed, tokens allocated so far, the token that becomes the parent of
   the next one (-1: none). Positions and token numbers are 0 based as in the code; an open container has e = -1.
   Run(js, len, st, ntok) is one call of the parser with storage for ntok tokens; it can be called again with more
   storage or more text and continues where it stopped.                                                             *)
EXTENDS Integers, Sequences, FiniteSets

OBJ == 1  ARR == 2  STR == 3  PRIM == 4
NOMEM == -1  INVAL == -2  PART == -3

LBRACE == 123  RBRACE == 125  LBRACK == 91  RBRACK == 93  QUOTE == 34  COLON == 58  COMMA == 44  BSL == 92
White == {9, 10, 13, 32}
Delim == White \cup {COLON, COMMA, RBRACK, RBRACE}      \* ends a primitive
Hex == (48..57) \cup (65..70) \cup (97..102)
Esc == {QUOTE, 47, BSL, 98, 102, 114, 110, 116}         \* " / \ b f r n t

InitSt == [pos |-> 0, tk |-> <<>>, sup |-> -1]
Min(a, b) == IF a < b THEN a ELSE b
(* a NUL ends the text *)
Eff(js, len) == LET z == {i \in 0..(Min(len, Len(js)) - 1) : js[i + 1] = 0} IN IF z = {} THEN Min(len, Len(js)) ELSE CHOOSE i \in z : \A j \in z : i <= j
C(js, i) == js[i + 1]

(* end of the primitive that starts at i, -1: a character that may not be there *)
RECURSIVE PrimEnd(_, _, _)
PrimEnd(js, E, i) == IF i >= E THEN E ELSE IF C(js, i) \in Delim THEN i ELSE IF C(js, i) < 32 \/ C(js, i) >= 127 THEN -1 ELSE PrimEnd(js, E, i + 1)
(* position of the quote that ends the string whose characters start at i, or the error *)
RECURSIVE StrEnd(_, _, _)
StrEnd(js, E, i) ==
    IF i >= E THEN PART
    ELSE IF C(js, i) = QUOTE THEN i
    ELSE IF C(js, i) # BSL THEN StrEnd(js, E, i + 1)
    ELSE IF i + 1 >= E THEN PART
    ELSE IF C(js, i + 1) \in Esc THEN StrEnd(js, E, i + 2)
    ELSE IF C(js, i + 1) # 117 THEN INVAL
    ELSE LET n == Min(4, E - (i + 2)) IN      \* \uXXXX
         IF \E k \in 0..(n - 1) : C(js, i + 2 + k) \notin Hex THEN INVAL ELSE StrEnd(js, E, i + 2 + n)

Tok(ty, s, e, p) == [ty |-> ty, s |-> s, e |-> e, n |-> 0, p |-> p]
Counted(tk, p) == IF p = -1 THEN tk ELSE [tk EXCEPT ![p + 1].n = @ + 1]     \* p has one more member
OpenC(t) == t.ty \in {OBJ, ARR} /\ t.e = -1
(* innermost open container *)
Innermost(tk) == LET o == {i \in 1..Len(tk) : OpenC(tk[i])} IN IF o = {} THEN 0 ELSE CHOOSE i \in o : \A j \in o : j <= i

Res(r, st) == [r |-> r, st |-> st]
RECURSIVE Run(_, _, _, _)
Run(js, E, st, ntok) ==
    LET go(s) == Run(js, E, s, ntok)  full == Len(st.tk) >= ntok  p == st.pos IN
    IF p >= E THEN Res(IF Innermost(st.tk) # 0 THEN PART ELSE Len(st.tk), st)
    ELSE LET c == C(js, p) IN
    IF c \in White THEN go([st EXCEPT !.pos = p + 1])
    ELSE IF c = COLON THEN go([st EXCEPT !.pos = p + 1, !.sup = Len(st.tk) - 1])
    ELSE IF c = COMMA THEN go([st EXCEPT !.pos = p + 1, !.sup = IF @ = -1 THEN -1 ELSE IF st.tk[@ + 1].ty \in {OBJ, ARR} THEN @ ELSE st.tk[@ + 1].p])
    ELSE IF c \in {LBRACE, LBRACK}
    THEN IF full THEN Res(NOMEM, st)
         ELSE go([pos |-> p + 1, tk |-> Append(Counted(st.tk, st.sup), Tok(IF c = LBRACE THEN OBJ ELSE ARR, p, -1, st.sup)), sup |-> Len(st.tk)])
    ELSE IF c \in {RBRACE, RBRACK}
    THEN LET i == Innermost(st.tk) IN
         IF i = 0 THEN Res(INVAL, st)
         ELSE IF st.tk[i].ty # (IF c = RBRACE THEN OBJ ELSE ARR) THEN Res(INVAL, st)
         ELSE go([pos |-> p + 1, tk |-> [st.tk EXCEPT ![i].e = p + 1], sup |-> st.tk[i].p])
    ELSE LET q == IF c = QUOTE THEN StrEnd(js, E, p + 1) ELSE PrimEnd(js, E, p) IN
         IF q < 0 THEN Res(IF c = QUOTE THEN q ELSE INVAL, st)
         ELSE IF full THEN Res(NOMEM, st)
         ELSE LET t == IF c = QUOTE THEN Tok(STR, p + 1, q, st.sup) ELSE Tok(PRIM, p, q, st.sup) IN
              go([st EXCEPT !.pos = IF c = QUOTE THEN q + 1 ELSE q, !.tk = Counted(Append(@, t), st.sup)])
Parse(js, len, st, ntok) == Run(js, Eff(js, len), st, ntok)

(* counting without storage: no nesting is looked at *)
RECURSIVE CountRun(_, _, _, _)
CountRun(js, E, p, n) ==
    IF p >= E THEN n
    ELSE LET c == C(js, p) IN
    IF c \in White \cup {COLON, COMMA, RBRACE, RBRACK} THEN CountRun(js, E, p + 1, n)
    ELSE IF c \in {LBRACE, LBRACK} THEN CountRun(js, E, p + 1, n + 1)
    ELSE LET q == IF c = QUOTE THEN StrEnd(js, E, p + 1) ELSE PrimEnd(js, E, p) IN
         IF q < 0 THEN (IF c = QUOTE THEN q ELSE INVAL) ELSE CountRun(js, E, IF c = QUOTE THEN q + 1 ELSE q, n + 1)
Count(js, len) == CountRun(js, Eff(js, len), 0, 0)

(* ---- laws of the grammar, checked by TLC for every text of the model ---- *)
Max == 1000000
RECURSIVE IsAnc(_, _, _)
IsAnc(tk, a, i) == a = i \/ (tk[i].p # -1 /\ IsAnc(tk, a, tk[i].p + 1))
Laws(js) ==
    LET L == Len(js)  f == Parse(js, L, InitSt, Max)  tk == f.st.tk  n == Len(tk) IN
    /\ f.r >= 0 => f.r = n /\ Count(js, L) = n
    /\ f.r < 0 => (f.r = PART /\ Count(js, L) \in {n, PART}) \/ (f.r = INVAL /\ (Count(js, L) >= n \/ Count(js, L) \in {INVAL, PART}))
    /\ \A i \in 1..n : /\ tk[i].p < i - 1
                       /\ tk[i].n = Cardinality({j \in 1..n : tk[j].p = i - 1})
                       /\ tk[i].s >= 0 /\ (tk[i].e = -1 \/ (tk[i].s <= tk[i].e /\ tk[i].e <= L))
    /\ f.r >= 0 => \A i \in 1..n : tk[i].e # -1
    \* tokens are in order of the text and containers enclose what is in them
    /\ \A i, j \in 1..n : i < j => tk[i].s < tk[j].s /\ (tk[i].e = -1 \/ tk[i].e <= tk[j].s \/ (tk[j].e # -1 /\ tk[j].e < tk[i].e /\ tk[i].ty \in {OBJ, ARR}))
    \* every open container is an ancestor of the last token
    /\ n > 0 => \A i \in 1..n : OpenC(tk[i]) => IsAnc(tk, i, n)
    \* with too little storage, and then enough, the result is the same
    /\ \A k \in 0..n : LET a == Parse(js, L, InitSt, k) IN
          /\ Len(a.st.tk) <= k
          /\ (a.r = NOMEM => Parse(js, L, a.st, Max) = f) /\ (a.r # NOMEM => a = f)
    \* the text can arrive in pieces that do not cut a primitive
    /\ \A c \in 0..L : LET a == Parse(js, c, InitSt, Max) IN
          (a.r \notin {INVAL} /\ ~(\E i \in 1..Len(a.st.tk) : a.st.tk[i].ty = PRIM /\ a.st.tk[i].e = c)) => Parse(js, L, a.st, Max) = f
=========================================================================
