"""Checks of .xb documents: C09 (conversion and back), C10 (types of names), C13 (packing), C15 (dictionaries), C20 (traversals)."""
from mbv import *

def _hex(v): return "x" + "".join("%02x" % b for b in v)
def _parse(l): return json.loads(untla(l)[2:].replace("<<", "[").replace(">>", "]"))
def _toks(D):
    o = []
    for d, n, t, A in D:
        o.append("n:%d:%s:%s" % (d, _hex(n), _hex(t)))
        o += ["a:%s:%s" % (_hex(a), _hex(v)) for a, v in A]
    return " ".join(o)
def _probes(D):
    N = {tuple(x[1]) for x in D} | {tuple(a[0]) for x in D for a in x[3]}
    Q = {()}
    for n in sorted(N - {()})[:40]: Q |= {n, n[:-1], n + (97,), n + (48,), n[:-1] + (n[-1] + 1 if n[-1] < 255 else 1,), n[:-1] + (n[-1] - 1,), tuple(c ^ 32 if 65 <= c <= 122 else c for c in n)}
    return " ".join(_hex(q) for q in sorted(Q) if 0 not in q)
def _json(x):
    kind, t, u, D = x
    return "json%s %s %s %s" % ("?" if kind == 2 else "", _hex(t), _hex(u), _toks(D)) if kind == 1 else "json%s %s" % ("?" if kind == 2 else "", _hex(t))
OPS = {"C09": lambda D: ["tree", "print"], "C10": lambda D: ["dict"], "C13": lambda D: ["pack"], "C15": lambda D: ["dict " + _probes(D)], "C20": lambda D: ["tree", "walk u", "walk p"], "C23": lambda D: ["xbw"]}

def small(ck, what, laws, style=None, per=12, **c):
    """all small documents; laws: the invariants checked on them"""
    d = dict(Names="<- N2", Texts="<- T2", AttrNames="<- N0", AttrValues="<- T0", MaxNodes=3, MaxAttrs=0, MaxDepth=9); d.update(c)
    t = tlc("XbDocMC", cfg("Spec", d, ACTION_CONSTRAINT="Emit", INVARIANT=laws), keep=lambda l: l.startswith('"HX'), workers=4)
    if t.error or t.rc != 0: raise Fail("XbDocMC failed:\n" + "\n".join(t.errs) + t.out[-2000:])
    ck.model(t, what)
    rnd = random.Random(SEED); docs = sorted(set(t.lines)); rnd.shuffle(docs)
    return scripts(ck, what, [(rnd.randrange(4096) if style is None else style, _parse(x)) for x in docs], per)

def rnd(ck, what, num, per=6, MaxLen=12, Tys="Order", parts=NPROC):
    c = dict(Kind='"doc"', Tys="<- " + Tys, Tokens="<- NoT", Pool="<- NoP", MaxLen=MaxLen)
    def one(i):
        t = tlc("XbDocGen", cfg("DSpec", c, ACTION_CONSTRAINT="DEmit"), keep=lambda l: l.startswith('"HX'), simulate=1, depth=num // parts + 2, seed=SEED * 1000 + i)
        if t.error or t.rc != 0: raise Fail("XbDocGen failed:\n" + "\n".join(t.errs) + t.out[-2000:])
        return t
    docs = []
    for t in par(one, range(parts)):
        ck.model(t, what); docs += [_parse(x) for x in t.lines]
    return scripts(ck, what, docs, per)

def jsons(ck, what, docs, per):
    S = [[_json(x)] + (["tree", "dict " + _probes([y for y in x[3] if y[1] != [0]]), "pack", "walk u", "walk p"] if x[0] == 1 else []) for x in docs]
    ck.notes.setdefault("sets", []).append({"set": what, "texts": len(S), "of JSON": sum(x[0] == 1 for x in docs), "to be refused": sum(x[0] == 0 for x in docs)})
    return [("%s-%d" % (what, i), [o for x in S[i:i + per] for o in x]) for i in range(0, len(S), per)]
def small_json(ck, what, n, words="W2", per=200, keys=None):
    v = "V" if keys else ""
    t = tlc("JsonMC", cfg("Spec" + v, dict(MaxLex=n, Words0="<- " + words, Keys0="<- " + (keys or "K2")), ACTION_CONSTRAINT="Emit" + v, INVARIANT=["Laws"] + (["LawsV"] if keys else [])), keep=lambda l: l.startswith('"HX'), workers=NPROC)
    if t.error or t.rc != 0: raise Fail("JsonMC failed:\n" + "\n".join(t.errs) + t.out[-2000:])
    ck.model(t, what)
    L = sorted(set(t.lines)); D = [_parse(x) for x in L]
    bad = [x for x in D if x[0] != 1]; good = [x for x in D if x[0] == 1]
    return (jsons(ck, what, good, 12) if good else []) + (jsons(ck, what + ", not JSON", bad, per) if bad else [])
def rnd_json(ck, what, num, damage, per=8, MaxLen=14, parts=NPROC):
    c = dict(Kind='"doc"', Tys="<- Order", Tokens="<- NoT", Pool="<- NoP", MaxLen=MaxLen, Damage=damage)
    def one(i):
        t = tlc("JsonDocGen", cfg("JSpec", c, ACTION_CONSTRAINT="JEmit"), keep=lambda l: l.startswith('"HX'), simulate=1, depth=num // parts + 2, seed=SEED * 1000 + i)
        if t.error or t.rc != 0: raise Fail("JsonDocGen failed:\n" + "\n".join(t.errs) + t.out[-2000:])
        return t
    docs = []
    for t in par(one, range(parts)):
        ck.model(t, what); docs += [_parse(x) for x in t.lines]
    return jsons(ck, what, docs, per)

def scripts(ck, what, docs, per):
    f = OPS[ck.prop]
    S = [["doc %d %s" % (st, _toks(D))] + f(D) for st, D in docs]
    ck.notes.setdefault("sets", []).append({"set": what, "documents": len(S)})
    return [("%s-%d" % (what, i), [o for x in S[i:i + per] for o in x]) for i in range(0, len(S), per)]

def _conf(): drv, = build("plain", "xb_driver"); return Conf(drv, "XbDocTrace")
def many(*kinds): return [("many-%s-%d" % (k, n), ["many %s %d" % (k, n)]) for k, n in kinds]

def c09():
    ck = Check("C09"); th = ck.thorough; cf = _conf()
    S = small(ck, "shapes", ["Structure"], Texts="<- T3", MaxNodes=4 if th else 3)
    S += small(ck, "attributes", ["Structure"], Names="<- N1", AttrNames="<- N2", AttrValues="<- V3", MaxNodes=2, MaxAttrs=2)
    S += rnd(ck, "random", 16000 if th else 1600)
    S += many(("wide", 3000), ("wide", 30000), ("ints", 2000), ("longs", 2000), ("one", 300), ("deep", 200))
    ck.conform(cf, S, "documents converted, read, printed, read by another parser and converted again")
    return ck
def c10():
    ck = Check("C10"); th = ck.thorough; cf = _conf()
    ck.prove("XbDocMC", cfg("Spec", dict(Names="<- N1", Texts="<- T2", AttrNames="<- N0", AttrValues="<- T0", MaxNodes=1, MaxAttrs=0, MaxDepth=1), INVARIANT=["JoinLaw"]), "laws of joining types")
    S = small(ck, "values", ["TypeLaw"], Names="<- N1", Texts="<- TV", MaxNodes=4 if th else 3, MaxDepth=1)
    S += small(ck, "attribute values", ["Structure"], Names="<- N1", Texts="<- T0", AttrNames="<- N1", AttrValues="<- TV", MaxNodes=3 if th else 2, MaxAttrs=1, MaxDepth=1)
    S += rnd(ck, "random", 20000 if th else 2400)
    S += rnd(ck, "random numbers", 12000 if th else 1600, Tys="Nums")
    ck.conform(cf, S, "types of the names of documents")
    return ck
def c13():
    ck = Check("C13"); th = ck.thorough; cf = _conf()
    S = small(ck, "shapes", ["Packing"], MaxNodes=5 if th else 4)
    S += small(ck, "attributes", ["Packing"], Names="<- N1", Texts="<- T2", AttrNames="<- N1", AttrValues="<- V2", MaxNodes=4 if th else 3, MaxAttrs=1)
    S += rnd(ck, "random", 12000 if th else 1600, MaxLen=16)
    ck.conform(cf, S, "packed and plain documents")
    return ck
def c15():
    ck = Check("C15"); th = ck.thorough; cf = _conf()
    S = small(ck, "names", ["Dictionary"], Names="<- NN", Texts="<- T0", AttrNames="<- NN", AttrValues="<- T0", MaxNodes=3 if th else 2, MaxAttrs=2)
    S += rnd(ck, "random", 12000 if th else 1600)
    S += many(("tags", 127), ("tags", 255), ("tags", 1000), ("attrs", 300), ("attrs", 1000), ("tags", 5000), ("tags", 32767), ("tags", 32768), ("attrs", 32768), ("attrs", 32769))
    ck.conform(cf, S, "dictionaries")
    return ck
def c20():
    ck = Check("C20"); th = ck.thorough; cf = _conf()
    S = small(ck, "shapes", ["Structure"], MaxNodes=5 if th else 4, Texts="<- T0")
    S += small(ck, "attributes", ["Structure"], Names="<- N2", Texts="<- T0", AttrNames="<- N2", AttrValues="<- T0", MaxNodes=2, MaxAttrs=2)
    S += rnd(ck, "random", 12000 if th else 1600, MaxLen=16)
    S += many(("wide", 3000), ("deep", 200))
    ck.conform(cf, S, "traversals of packed and plain documents")
    return ck
def c18():
    ck = Check("C18"); th = ck.thorough; cf = _conf()
    S = small_json(ck, "lexemes", 6 if th else 5)
    S += small_json(ck, "values", 14 if th else 12, words="W1", keys="K2")
    S += rnd_json(ck, "random", 12000 if th else 2400, "FALSE")
    S += rnd_json(ck, "damaged", 12000 if th else 2400, "TRUE", per=40)
    ck.conform(cf, S, "JSON texts converted")
    return ck
def c23():
    ck = Check("C23"); th = ck.thorough; cf = _conf()
    S = small(ck, "shapes", ["Structure"], Texts="<- T3", MaxNodes=4 if th else 3)
    S += small(ck, "attributes", ["Structure"], Names="<- N1", AttrNames="<- N2", AttrValues="<- V3", MaxNodes=2, MaxAttrs=2)
    S += small(ck, "values", ["TypeLaw"], Names="<- N1", Texts="<- TV", MaxNodes=3, MaxDepth=1)
    S += small(ck, "attribute values", ["Structure"], Names="<- N1", Texts="<- T0", AttrNames="<- N1", AttrValues="<- TV", MaxNodes=2, MaxAttrs=1, MaxDepth=1)
    S += rnd(ck, "random", 16000 if th else 1600)
    S += rnd(ck, "random numbers", 8000 if th else 800, Tys="Nums")
    S += [(n.replace("many", "manyw"), [o[0].replace("many", "manyw")]) for n, o in many(("wide", 3000), ("wide", 30000), ("ints", 2000), ("longs", 2000), ("one", 300), ("deep", 200), ("tags", 1000), ("attrs", 300), ("tags", 32768), ("attrs", 32769))]
    for n, o in rnd_json(ck, "JSON", 400 if th else 80, "FALSE"): S.append((n, [x for y in o if y.startswith("json ") and len(y.split()) > 3 for x in (y, "xbw")]))
    ck.conform(cf, S, "documents converted to shared-memory documents")
    return ck
_MODES = [0, 0, 1, 2, 3, 4, 5, 0]
def copies(ck, what, th, per=16, **c):
    """all small documents and sequences of copies"""
    d = dict(Names="<- N2", Texts="<- T0", AttrNames="<- NK", AttrValues="<- TX", MaxNodes=3, MaxAttrs=1, MaxDepth=9, Keys="<- NK", MaxOps=2, SameValue="<- MCSame", NoValue="<- MCNone"); d.update(c)
    t = tlc("XbCopyMC", cfg("Spec", d, ACTION_CONSTRAINT="Emit", INVARIANT=["Laws", "Whole"]), keep=lambda l: l.startswith('"HX'), workers=NPROC)
    if t.error or t.rc != 0: raise Fail("XbCopyMC failed:\n" + "\n".join(t.errs) + t.out[-2000:])
    ck.model(t, what)
    rnd = random.Random(SEED); H = {}
    for x in sorted(set(t.lines)): D, h = _parse(x); H.setdefault(json.dumps(D), []).append(h)
    S = []
    for D in sorted(H):
        L = H[D]; rnd.shuffle(L)
        ops = ["src 0 %d %s" % (rnd.randrange(4096), _toks(json.loads(D)))]
        for h in L: ops += ["tgt %d x6b" % (rnd.randrange(4) if rnd.randrange(3) == 0 else 0)] + ["cp 0 %d %d" % (i, w) for i, w in h]
        S.append(ops)
    rnd.shuffle(S); ck.notes.setdefault("sets", []).append({"set": what, "documents": len(S), "histories": sum(map(len, H.values()))})
    return [("%s-%d" % (what, i), [o for x in S[i:i + per] for o in x]) for i in range(0, len(S), per)]
def rnd_copies(ck, what, num, per=6, MaxLen=10, parts=NPROC):
    c = dict(Kind='"doc"', Tys="<- Order", Tokens="<- NoT", Pool="<- NoP", MaxLen=MaxLen)
    def one(i):
        t = tlc("XbCopyGen", cfg("CSpec", c, ACTION_CONSTRAINT="CEmit"), keep=lambda l: l.startswith('"HX'), simulate=1, depth=num // parts + 2, seed=SEED * 1000 + i)
        if t.error or t.rc != 0: raise Fail("XbCopyGen failed:\n" + "\n".join(t.errs) + t.out[-2000:])
        return t
    S = []
    for t in par(one, range(parts)):
        ck.model(t, what)
        for x in t.lines:
            s1, A, s2, B, K, m, O = _parse(x)
            S.append(["src 0 %d %s" % (s1, _toks(A)), "src 1 %d %s" % (s2, _toks(B)), " ".join(["tgt %d" % _MODES[m]] + [_hex(k) for k in K])] + ["cp %d %d %d" % tuple(o) for o in O] + ["fin"])
    ck.notes.setdefault("sets", []).append({"set": what, "histories": len(S)})
    return [("%s-%d" % (what, i), [o for x in S[i:i + per] for o in x]) for i in range(0, len(S), per)]
def c08():
    ck = Check("C08"); th = ck.thorough; drv, = build("plain", "xb_driver"); cf = Conf(drv, "XbCopyTrace")
    S = copies(ck, "copies", th)
    S += copies(ck, "copies with values", th, Names="<- N1", Texts="<- TX", AttrNames="<- NKX", MaxNodes=2, MaxAttrs=2, MaxOps=3 if th else 2)
    S += copies(ck, "three copies", th, Names="<- N1", MaxNodes=3, MaxOps=3)
    S += rnd_copies(ck, "random", 16000 if th else 1400)
    ck.conform(cf, S, "paths and subtrees copied between documents")
    return ck
