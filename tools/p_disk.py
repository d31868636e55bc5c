"""C24: conversions as changes of a directory of files."""
from mbv import *

def _parse(l): return json.loads(untla(l)[2:].replace("<<", "[").replace(">>", "]"))
def _op(o):
    n = lambda N: ",".join(N) if N else "-"
    if o[0] == "put": return "put %s %s %d" % (n(o[1]), o[2], o[3])
    if o[0] == "conv": return "conv %s %s %s %%d %d" % (n(o[1]), n(o[2]), o[3], o[4])
    return "%s %s" % (o[0], n(o[1]))
def _run(ck, what, seed=None, simulate=None, sample=None, per=25, **c):
    d = dict(Sources="<- SrcAll", Targets="<- TgtFew", Kinds="<- BothKinds", Puts="<- PutFew", Lims="<- FewLims", MaxOps=2, Mode='"gen"', Rand="FALSE", Same="TRUE"); d.update(c)
    def one(i):
        t = tlc("XbDiskMC", cfg("Spec", d, ACTION_CONSTRAINT="Emit"), keep=lambda l: l.startswith('"HD'), workers=1 if simulate else NPROC, simulate=simulate, depth=d["MaxOps"] + 1, seed=None if seed is None else seed + i)
        if t.error or t.rc != 0: raise Fail("XbDiskMC failed:\n" + "\n".join(t.errs) + t.out[-2000:])
        return t
    H = []; rnd = random.Random(SEED)
    for t in par(one, range(NPROC if simulate else 1)):
        ck.model(t, what); H += [_parse(x) for x in sorted(set(t.lines))]
    H = [h for h in H if h[0][0] == "put" or rnd.randrange(6) == 0]
    if sample and len(H) > sample: H = rnd.sample(H, sample)
    S = [[(lambda s: s % rnd.randrange(2) if "%d" in s else s)(_op(o)) for o in h] for h in H]
    ck.notes.setdefault("sets", []).append({"set": what, "histories": len(S)})
    return [("%s-%d" % (what, i), s) for i, s in enumerate(S)]
def c24():
    ck = Check("C24"); th = ck.thorough; drv, = build("plain", "disk_driver"); cf = Conf(drv, "XbDiskTrace")
    laws = dict(INVARIANT=["TargetLaw", "Sound"], PROPERTY=["Keep"])
    d = dict(Sources="<- SrcAll", Targets="<- TgtFew", Kinds="<- BothKinds", Puts="<- PutFew", Lims="<- FewLims", Mode='"all"', Rand="FALSE", Same="FALSE")
    ck.prove("XbDiskMC", cfg("Spec", dict(d, MaxOps=3 if th else 2, Sources="<- SrcAll" if th else "<- SrcXml"), **laws), "directory of files, every conversion may run out of space", workers=NPROC)
    ck.prove("XbDiskMC", cfg("Spec", dict(d, Sources="<- SrcMany", Targets="<- TgtMany", MaxOps=1), **laws), "names of targets", workers=NPROC)
    S = _run(ck, "names", Sources="<- SrcMany", Targets="<- TgtMany", Lims="<- NoLim", Puts="<- PutFew", sample=12000 if th else 2500)
    S += _run(ck, "space", Sources="<- SrcXml", Targets="<- DefT", Puts="<- PutAll", Lims="<- AllLims")
    S += _run(ck, "over existing files", Sources="<- SrcXml", Targets="<- TgtFew", Puts="<- PutFew", Lims="<- FewLims", MaxOps=3, sample=8000 if th else 1500)
    S += _run(ck, "random", seed=SEED * 1000, simulate=(12000 if th else 800) // NPROC, Sources="<- SrcAll", Targets="<- TgtMany", Puts="<- PutAll", Lims="<- AllLims", MaxOps=12, Rand="TRUE", Same="FALSE")
    S += _run(ck, "random names", seed=SEED * 1000 + 500, simulate=(12000 if th else 800) // NPROC, Sources="<- SrcMany", Targets="<- TgtMany", Puts="<- PutAll", Lims="<- AllLims", MaxOps=20, Rand="TRUE", Same="FALSE")
    S += _run(ck, "through shared memory", seed=SEED * 1000 + 700, simulate=(8000 if th else 800) // NPROC, Sources="<- SrcWeb", Targets="<- TgtWeb", Puts="<- PutXml", Lims="<- FewLims", MaxOps=14, Mode='"web"', Rand="TRUE", Same="FALSE")
    ck.conform(cf, S, "histories of conversions")
    return ck
