"""Checks of the bytes of .xb documents: C16 (damaged documents)."""
from mbv import *
import p_doc

def _hx(v): return "".join("%02x" % b for b in v)
def _parse(l): return json.loads(untla(l)[2:].replace("<<", "[").replace(">>", "]"))
def _mut(cut, P): return "mut %d %s" % (cut, " ".join("%d:%s" % (o, _hx(v)) for o, v in P))
def _gen(ck, what, text, simulate=None, **kw):
    t = tlc("XbImageGen", text, keep=lambda l: l.startswith('"H'), simulate=simulate, **kw)
    if t.error or t.rc != 0: raise Fail("XbImageGen failed:\n" + "\n".join(t.errs) + t.out[-2000:])
    ck.model(t, what); return t.lines

def singles(ck, bases, deep=False, keep=1.0, per=400):
    """every cut and every single change of the images"""
    base, M = {}, {}
    rnd = random.Random(SEED)
    def one(k): return _gen(ck, "single changes", cfg("Spec", dict(Bases="{%d}" % k, Deep="TRUE" if deep else "FALSE"), ACTION_CONSTRAINT="Emit", INVARIANT=["Written"] + (["Inside"] if keep == 1.0 else [])), workers=1)
    for L in par(one, bases):
        for l in L:
            x = _parse(l)
            if l.startswith('"HB'): base[x[0]] = x[1]
            else: M.setdefault(x[0], []).append((x[1], x[2]))
    S = []
    for k in sorted(base):
        m = sorted(M[k]); rnd.shuffle(m); m = m[:int(len(m) * keep) + 1]
        ck.notes.setdefault("sets", []).append({"set": "single changes", "image": k, "bytes": len(base[k]), "changes": len(m)})
        S += [("single-%d-%d" % (k, i), ["img x" + _hx(base[k])] + [_mut(*c) for c in m[i:i + per]]) for i in range(0, len(m), per)]
    return S

def combos(ck, num, per=100):
    by = {}; n = num // NPROC
    def one(i): return _gen(ck, "combinations", cfg("RSpec", dict(Bases="{1}", Deep="FALSE"), ACTION_CONSTRAINT="REmit", INVARIANT=["Inside"]), simulate=1, depth=n + 2, seed=SEED * 1000 + i)
    for L in par(one, range(NPROC)):
        for l in L: x = _parse(l); by.setdefault(x[0], (x[1], []))[1].append((x[2], x[3]))
    ck.notes.setdefault("sets", []).append({"set": "combinations of changes", "images": len(by), "changes": sum(len(v[1]) for v in by.values())})
    return [("combo-%d-%d" % (k, i), ["img x" + _hx(by[k][0])] + [_mut(*c) for c in by[k][1][i:i + per]]) for k in sorted(by) for i in range(0, len(by[k][1]), per)]

def library(ck, docs, num, muts=12):
    """images of converted documents, as they are and changed at random places"""
    L = _gen(ck, "changes", cfg("LSpec", dict(Bases="{1}", Deep="FALSE"), ACTION_CONSTRAINT="LEmit"), simulate=1, depth=num + 2, seed=SEED * 1000)
    M = [_parse(l) for l in L]; S = []; j = 0
    for name, ops in docs:
        o = []
        for d in ops:
            if not d.startswith("doc "): continue
            o.append(d)
            for w in "up":
                o.append("img " + w)
                for _ in range(muts): o.append(_mut(M[j % len(M)][1], M[j % len(M)][2])); j += 1
        S.append(("lib-" + name, o))
    ck.notes.setdefault("sets", []).append({"set": "images of converted documents", "changes": j})
    return S

def c16():
    ck = Check("C16"); th = ck.thorough
    drv, = build("image", "xb_driver"); cf = Conf(drv, "XbImageTrace")
    p_doc.OPS["C16"] = lambda D: []
    S = singles(ck, [1, 2, 3], deep=th, keep=1.0 if th else 0.6)
    S += singles(ck, list(range(4, 26)), deep=False, keep=1.0 if th else 0.1)
    S += combos(ck, 60000 if th else 8000)
    docs = p_doc.small(ck, "shapes", ["Structure"], Texts="<- T3", MaxNodes=3 if th else 2) + p_doc.small(ck, "attributes", ["Structure"], Names="<- N1", AttrNames="<- N2", AttrValues="<- V3", MaxNodes=2 if th else 1, MaxAttrs=2) + p_doc.rnd(ck, "random", 800 if th else 60)
    S += library(ck, docs, 4000, 12)
    ck.conform(cf, S, "damaged documents opened and read")
    return ck
