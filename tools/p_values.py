"""Checks of typed values: C11 (text and binary forms), C12 (output in pieces), C22 (order)."""
from mbv import *

def _hex(v): return "x" + "".join("%02x" % b for b in v)
def _op(line):
    v = json.loads(untla(line)[2:].replace("<<", "[").replace(">>", "]"))
    k = v[0]
    if k == "fs": return "fs %s %d %s" % (v[1], v[2], _hex(v[3]))
    if k == "ts": return "ts %s %s %s" % (v[1], _hex(v[2]), " ".join(map(str, v[3:])))
    if k == "dt": return "dt " + _hex(v[1])
    if k == "jn": return "jn %s %s" % (v[1], v[2])
    if k == "d2": return "d2 %s %s" % (v[1], " ".join(_hex(x) for x in v[2:]))
    if k == "cm": return "cm %s %s %s %s" % (v[1], _hex(v[2]), v[3], _hex(v[4]))
    if k == "fp": return "fp %s %s %s / %s" % (v[1], v[2], " ".join("%s:%s" % (x[0], _hex(x[1])) for x in v[3:-2]), _hex(v[-1]))
    raise Fail("unknown operation " + line)

def ops(ck, what, kind, num=0, per=400, Tys="Order", Tokens="NoT", Pool="NoP", MaxLen=0, sizes="", parts=NPROC):
    c = dict(Kind='"%s"' % kind, Tys="<- " + Tys, Tokens="<- " + Tokens, Pool="<- " + Pool, MaxLen=MaxLen)
    def one(i):
        t = tlc("XbValuesGen", cfg("Spec", c, ACTION_CONSTRAINT="Emit"), keep=lambda l: l.startswith('"HV'), workers=1 if num else 4,
                simulate=1 if num else None, depth=num // parts + 2 if num else None, seed=SEED * 1000 + i)
        if t.error or t.rc != 0: raise Fail("generator XbValuesGen failed:\n" + "\n".join(t.errs) + t.out[-300:])
        return t
    L = []
    for t in par(one, range(parts if num else 1)):
        ck.model(t, what); L += [_op(l) for l in t.lines]
    L = sorted(set(L))
    if sizes: L = [x + sizes for x in L]
    random.Random(SEED).shuffle(L)
    return [("%s-%d" % (what, i), L[i:i + per]) for i in range(0, len(L), per)]

def _conf(): drv, = build("plain", "values_driver"); return Conf(drv, "XbValuesTrace")

def many(ck, cf, sets):
    """generates all the sets at the same time, then validates them together"""
    R = par(lambda x: ops(ck, x[0], x[1], parts=2, **x[2]), sets, 4)
    for (w, k, kw, what), sc in zip(sets, R): ck.notes.setdefault("sets", []).append({"set": what, "operations": sum(len(x[1]) for x in sc)})
    ck.conform(cf, [x for sc in R for x in sc], "all sets")

def c11():
    ck = Check("C11"); cf = _conf(); th = ck.thorough; n = 1 if th else 0
    many(ck, cf, [
        ("text-num", "text", dict(Tys="Nums", Tokens="TNum", MaxLen=3), "all short number texts"),
        ("text-flt", "text", dict(Tys="Floats", Tokens="TNum", MaxLen=3 + n), "all short floating point texts"),
        ("text-date", "text", dict(Tys="Times", Tokens="TDate", MaxLen=3 + n), "all short date texts"),
        ("text-time", "text", dict(Tys="Times", Tokens="TTime", MaxLen=3 + n), "all short time texts"),
        ("text-hex", "text", dict(Tys="Hexes", Tokens="THex", MaxLen=3), "all short hexadecimal texts"),
        ("text-b64", "text", dict(Tys="Hexes", Tokens="TB64", MaxLen=3 + n), "all short base64 texts"),
        ("text-ip", "text", dict(Tys="Addr", Tokens="TIp", MaxLen=4 + n), "all short addresses"),
        ("bytes", "bytes", dict(Tys="Four", Tokens="BEdge" if th else "BFew", MaxLen=4), "4 byte values"),
        ("days", "days", dict(Pool="D2" if th else "D1"), "all days"),
        ("years", "years", dict(Pool="Y1" if th else "Y2"), "first days of years and of March"),
        ("daysA", "days", dict(Pool="DA"), "first days"),
        ("daysB", "days", dict(Pool="DB"), "last days"),
        ("rndts", "rndts", dict(num=60000 if th else 2400, per=60), "random values of all types"),
        ("rndfs", "rndfs", dict(num=200000 if th else 12000), "random texts of all types")])
    return ck

def c12():
    ck = Check("C12"); cf = _conf(); th = ck.thorough
    ck.conform(cf, ops(ck, "small", "rndts", num=20000 if th else 2000, per=50), "random values of all types, every sequence of buffer sizes")
    ck.conform(cf, ops(ck, "long", "long", Tys="Var4", num=8000 if th else 1200, per=10), "values longer than a buffer")
    return ck

def c22():
    ck = Check("C22"); cf = _conf(); th = ck.thorough
    ck.conform(cf, ops(ck, "cmp", "rndcm", Tys="Cmps", num=200000 if th else 24000), "pairs of values")
    ck.conform(cf, ops(ck, "find", "rndfp", Tys="Cmps", num=20000 if th else 1000, per=60), "search by attribute value")
    return ck
