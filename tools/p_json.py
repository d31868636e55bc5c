"""Checks of the JSON part: C17 (tokenizer)."""
from mbv import *

def texts(ck, what, sim=False, num=0, cuts=True, per=200, parts=NPROC, **kw):
    """texts of the generator JsmnGen, many to a script"""
    c = dict(Alphabet="<- NoA", MaxLen=3, Mode='"cover"', Pieces="<- NoP")
    for k, v in kw.items(): c[k] = v if isinstance(v, int) else "<- " + v
    if sim: c["Mode"] = '"sim"'
    def one(i):
        t = tlc("JsmnGen", cfg("Spec", c, INVARIANT=["Inv"], ACTION_CONSTRAINT="Emit"), keep=lambda l: l.startswith('"HT'),
                simulate=max(1, num // parts) if sim else None, depth=400, seed=SEED * 1000 + i, workers=1 if sim else 4)
        if t.error or t.rc != 0: raise Fail("generator JsmnGen failed:\n" + t.out[-3000:])
        return t
    T = []
    for t in par(one, range(parts if sim else 1)):
        ck.model(t, what)
        T += [l[3:].rstrip('"') for l in t.lines]
    T = sorted(set(T))
    if not sim: T.append("")
    op = "T " if cuts else "t "
    return [("%s-%d" % (what, i), [op + x for x in T[i:i + per]]) for i in range(0, len(T), per)]

def c17():
    ck = Check("C17"); drv, = build("plain", "jsmn_driver"); cf = Conf(drv, "JsmnTrace")
    n = 1 if ck.thorough else 0
    ck.conform(cf, texts(ck, "all", Alphabet="A12", MaxLen=3 + n), "all short texts over 12 characters")
    ck.conform(cf, texts(ck, "nest", Alphabet="A7", MaxLen=4 + n), "all short texts of brackets and separators")
    ck.conform(cf, texts(ck, "str", Alphabet="A8", MaxLen=4 + n), "all short texts of quotes and escapes")
    ck.conform(cf, texts(ck, "odd", Alphabet="AOdd", MaxLen=3 + n), "all short texts with odd characters")
    ck.conform(cf, texts(ck, "deep", Alphabet="A5", MaxLen=5 + n), "all short texts of brackets and quotes")
    ck.conform(cf, texts(ck, "long", sim=True, num=4000 if n else 600, Pieces="P", MaxLen=60, per=40), "random longer texts")
    ck.assume += ["jsmn as the library builds it: JSMN_PARENT_LINKS, not strict"]
    return ck
