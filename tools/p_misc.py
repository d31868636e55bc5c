"""Checks of smaller parts: C21 (sorting)."""
from mbv import *
import itertools

def arrays(ck, what, sim=False, num=0, parts=NPROC, **kw):
    c = {k: v if isinstance(v, int) else "<- " + v for k, v in kw.items()}
    c["Mode"] = '"sim"' if sim else '"cover"'
    def one(i):
        t = tlc("SortGen", cfg("Spec", c, ACTION_CONSTRAINT="Emit"), keep=lambda l: l.startswith('"HA'),
                simulate=max(1, num // parts) if sim else None, depth=c["MaxLen"] + 5, seed=SEED * 1000 + i)
        if t.error or t.rc != 0: raise Fail("generator SortGen failed:\n" + t.out[-3000:])
        return t
    A = []
    for t in par(one, range(parts if sim else 1)):
        ck.model(t, what)
        A += [re.findall(r"-?\d+", l[3:]) for l in t.lines]
    return A

def c21():
    ck = Check("C21"); drv, = build("plain", "sort_driver"); cf = Conf(drv, "SortTrace"); th = ck.thorough
    ck.prove("SortAlg", cfg("Spec", dict(MaxLen=5 if th else 4, Keys="<- K3", Modes="<- AllModes"), INVARIANT=["Perm", "Sorted", "Runs", "InSeg"]), "both algorithms, every array", workers=NPROC)
    ck.prove("SortAlg", cfg("Spec", dict(MaxLen=5 if th else 3, Keys="<- K2", Modes="<- UpMode"), INVARIANT=["Perm", "Sorted"], PROPERTY=["Ends"]), "both algorithms end", workers=NPROC)
    def scripts(what, A, modes, sizes, per=400):
        L = []
        for n, a in enumerate(A):
            for m in modes: L.append("a %s %d %s" % (m, sizes[len(L) % len(sizes)] if len(a) < 30 else [z for z in sizes if z > 1][len(L) % (len(sizes) - 1)], " ".join(a)))
        return [("%s-%d" % (what, i), L[i:i + per]) for i in range(0, len(L), per)]
    ck.conform(cf, scripts("all", arrays(ck, "all", MaxLen=7 if th else 6, Keys="K3"), ["up", "down", "par", "flat"], [1, 2, 3, 4, 8, 12, 100]), "every array over 3 keys")
    ck.conform(cf, scripts("all4", arrays(ck, "all4", MaxLen=6 if th else 5, Keys="K5"), ["up", "par"], [4, 1, 20]), "every array over 5 keys")
    ck.conform(cf, scripts("rnd", arrays(ck, "rnd", sim=True, num=4000 if th else 800, MaxLen=40, Keys="K7"), ["up", "down", "par", "flat"], [1, 2, 4, 7, 24, 200], per=60), "random arrays, many equal keys")
    ck.conform(cf, scripts("big", arrays(ck, "big", sim=True, num=400 if th else 80, MaxLen=250, Keys="K250"), ["up", "par"], [1, 4, 8, 33], per=5), "random long arrays")
    return ck
