"""Checks of the shared-memory document library: C01 .. C07."""
from mbv import *

DEFAULT = dict(Setup="<- RingSetup", Kinds="<- RingKinds", Slots="<- Zero", MaxEl=3, Depth=99, Mode='"cover"', MkSet="<- None", AtSet="<- None",
               SetSet="<- None", StrSet="<- None", WrSet="<- None", FindIds="<- None", RetypeTo="<- None", RegNames="<- None", RegTypes="<- None",
               AltIds="<- None", Files="<- None", MaxSize="<- None", Patches="<- None", Spaces="<- None", MaxNames=0, Imports="<- None", ValSet="<- None", Junk="<- None")

def gencfg(sim=False, **kw):
    c = dict(DEFAULT)
    for k, v in kw.items(): c[k] = v if isinstance(v, int) else "<- " + v
    if sim: c["Mode"] = '"sim"'
    return cfg("GSpec", c, VIEW=None if sim else "GView", ACTION_CONSTRAINT="Emit", INVARIANT=[] if sim else ["Inv"])

def cover(ck, what, tail=(), every=False, **kw):
    """every transition of the bounded state graph, with a shortest history leading to it"""
    H, t = histories("XbwProfiles", gencfg(**kw)); ck.model(t, what)
    last = lambda o: ["!" + x for x in o] if isinstance(o, Multi) else ["!" + o]
    return [("%s-%d" % (what, i), [("!" + o if every else o) for o in h[:-1]] + last(h[-1]) + (tail(h) if callable(tail) else list(tail))) for i, h in enumerate(H)]

def simulate(ck, what, num, every=7, parts=NPROC, **kw):
    """long random behaviours of the specification"""
    parts = min(parts, num)
    def one(i):
        return histories("XbwProfiles", gencfg(sim=True, **kw), simulate=max(1, num // parts), depth=int(kw["Depth"]) + 200, seed=SEED * 1000 + i)
    S = []
    for k, (H, t) in enumerate(par(one, range(parts))):
        ck.model(t, what)
        S += [("%s-%d-%d" % (what, k, i), [("!" + o if j % every == every - 1 or j == len(h) - 1 else o).replace("!!", "!") for j, o in enumerate(h)]) for i, h in enumerate(H)]
    return S

def conf():
    drv, = build("plain", "xbw_driver")
    return Conf(drv, "XbwTrace")

def c01():
    ck = Check("C01"); cf = conf()
    ck.conform(cf, cover(ck, "lists", MkSet="RingMk", AtSet="RingAt", MaxEl=5 if ck.thorough else 4), "lists: every transition")
    ck.conform(cf, cover(ck, "set", Setup="SetSetup", Kinds="SetKinds", MkSet="SetMk1", SetSet="SetSet1", StrSet="SetStr1", FindIds="SetFind", MaxEl=4 if ck.thorough else 3), "find and set: every transition")
    ck.conform(cf, simulate(ck, "long", 800 if ck.thorough else 80, Setup="SetSetup", Kinds="LongKinds", MkSet="LongMk", AtSet="LongAt", SetSet="LongSet", StrSet="LongStr", FindIds="SetFind", ValSet="LongVal", MaxEl=40, Depth=150), "long random histories")
    return ck

def c02():
    ck = Check("C02"); cf = conf()
    ck.conform(cf, cover(ck, "create", Setup="ValSetup", Kinds="ValKinds", MkSet="ValMk1", AtSet="ValAt1", MaxEl=2), "create functions x types x values")
    ck.conform(cf, cover(ck, "use", Setup="ValSetup", Kinds="UseKinds", MkSet="UseMk", AtSet="UseAt", RetypeTo="AllTypeSet", WrSet="UseWr", MaxEl=2), "read, re-type and write through")
    ck.conform(cf, cover(ck, "setall", Setup="ValSetup", Kinds="SetAllKinds", MkSet="StrMk", SetSet="SetAll", StrSet="StrAll", MaxEl=3), "set functions x types x values")
    ck.conform(cf, simulate(ck, "life", 400 if ck.thorough else 40, Setup="ValSetup", Kinds="LifeKinds2", MkSet="UseMk", AtSet="UseAt", SetSet="SetAll", StrSet="StrAll", WrSet="UseWr", RetypeTo="AllTypeSet", MaxEl=40, Depth=120), "random lives of typed values")
    return ck

def c03():
    ck = Check("C03"); cf = conf(); n = 8 if ck.thorough else 1
    def sim(what, num, **kw): return simulate(ck, what, num * n, every=9, Kinds="GrowKinds", MkSet=kw.pop("mk", "GrowMk"), AtSet=kw.pop("at", "GrowAt"), SetSet="GrowSet", StrSet="GrowStr", FindIds="GrowFind", RegNames="GrowNames", RegTypes="GrowTypes", MaxNames=60, MaxEl=60, Depth=90, **kw)
    S = []
    S += sim("grow24", 24, Setup="Grow24", mk="SmallMk", at="SmallAt") + sim("grow32", 24, Setup="Grow32") + sim("grow48", 24, Setup="Grow48") + sim("grow128", 24, Setup="Grow128") + sim("grow1M", 16, Setup="Grow1M", mk="HugeMk", at="HugeAt")
    ck.conform(cf, S, "growing and filling pools of several maximal sizes")
    S = simulate(ck, "fill", 24 * n, every=25, Setup="Grow24", Kinds="FillKinds", MkSet="SmallMk", AtSet="SmallAt", MaxEl=400, Depth=420)
    ck.conform(cf, S, "filling small pools to the last byte")
    return ck

def c04():
    ck = Check("C04"); cf = conf()
    ck.conform(cf, cover(ck, "dict", Setup="DictSetup", Kinds="DictKinds", RegNames="DictNames", RegTypes="DictTypes", AltIds="DictAlt", MaxNames=2, Depth=99), "registration: every transition")
    ck.conform(cf, cover(ck, "join", Setup="DictSetup", Kinds="JoinKinds", RegNames="OneName", RegTypes="AllTypeSet", MaxNames=1, Depth=99), "types joined on registration: every pair")
    ck.conform(cf, cover(ck, "alter", Setup="DictSetup", Kinds="AltKinds", RegNames="OneName", RegTypes="AllTypeSet", AltIds="Zero", MaxNames=1, Depth=3), "types altered: every pair")
    ck.conform(cf, simulate(ck, "large", 240 if ck.thorough else 24, every=29, Setup="DictSetup", Kinds="DictKindsL", RegNames="DictNamesL", RegTypes="AllTypeSet", AltIds="DictAltL", MkSet="DictMkL", AtSet="DictAtL", Imports="Impts", MaxNames=200, MaxEl=30, Depth=320), "large dictionaries")
    return ck

def c05():
    ck = Check("C05"); cf = conf()
    ck.conform(cf, cover(ck, "proc", Setup="ProcSetup", Kinds="ProcKinds", MkSet="ProcMk", AtSet="ProcAt", RegNames="ProcNames", RegTypes="ProcTypes", Files="Zero", MaxSize="ProcMax", MaxNames=2, MaxEl=2 if ck.thorough else 1), "restart, kill and second mapping: every transition")
    ck.conform(cf, cover(ck, "junk", Setup="ProcSetup", Kinds="JunkKinds", RegNames="OneName", RegTypes="ProcTypes", Files="TwoFiles", MaxSize="ProcMax", Junk="JunkVals", Patches="JunkPatches", MaxNames=1), "foreign and damaged files")
    ck.conform(cf, simulate(ck, "life", 400 if ck.thorough else 64, every=6, Setup="LifeSetup", Kinds="LifeKinds", MkSet="GrowMk", AtSet="GrowAt", SetSet="GrowSet", StrSet="GrowStr", WrSet="LifeWr", FindIds="GrowFind", AltIds="DictAlt", RegNames="GrowNames", RegTypes="GrowTypes", Files="TwoFiles", Slots="TwoSlots", MaxSize="LifeMax", MaxNames=40, MaxEl=40, Depth=120), "long lives with restarts")
    return ck

def c06():
    ck = Check("C06"); cf = conf()
    ck.conform(cf, cover(ck, "clear", Setup="ClrSetup", Kinds="ClrKinds", MkSet="ClrMk", AtSet="ClrAt", RegNames="ClrNames", RegTypes="ClrTypes", MaxNames=2 if ck.thorough else 1, MaxEl=2), "clearing in every state")
    ck.conform(cf, simulate(ck, "clears", 400 if ck.thorough else 64, every=8, Setup="ClrSetup", Kinds="ClrKindsL", MkSet="GrowMk", AtSet="GrowAt", SetSet="GrowSet", StrSet="GrowStr", RegNames="GrowNames", RegTypes="DictTypes3", Files="Zero", MaxSize="ProcMax", MaxNames=30, MaxEl=12, Depth=150), "repeated clearing")
    return ck

def c07():
    ck = Check("C07"); cf = conf()
    ck.conform(cf, cover(ck, "many", Setup="ManySetup", Kinds="ManyKinds", MkSet="ManyMk", RegNames="ManyNames", RegTypes="ManyTypes", Slots="ManySlots", Files="ManyFiles", MaxSize="ProcMax", MaxNames=1, MaxEl=2 if ck.thorough else 1), "three documents: every transition")
    ck.conform(cf, simulate(ck, "six", 320 if ck.thorough else 48, every=8, Setup="ManySetup", Kinds="ManyKindsL", MkSet="GrowMk", AtSet="GrowAt", SetSet="GrowSet", StrSet="GrowStr", FindIds="GrowFind", RegNames="GrowNames", RegTypes="GrowTypes", Slots="ManySlotsL", Files="ManySlotsL", MaxSize="LifeMax", MaxNames=20, MaxEl=15, Depth=150), "six documents")
    ck.conform(cf, simulate(ck, "limit", 64 if ck.thorough else 16, every=30, Setup="ManySetup", Kinds="ManyKindsX", MkSet="ManyMk", RegNames="ManyNames", RegTypes="ManyTypes", Slots="ManySlotsX", Files="ManySlotsX", MaxSize="ProcMax", MaxNames=1, MaxEl=3, Depth=250), "up to the limit of open documents")
    return ck

CONV = ("conv 0 u", "conv 0 p")
def c19():
    ck = Check("C19"); cf = conf()
    ck.conform(cf, cover(ck, "attrs", tail=CONV, Setup="ValSetup", Kinds="ConvAtKinds", AtSet="ConvAt", MaxEl=2), "one attribute of every type and value")
    ck.conform(cf, cover(ck, "elems", tail=CONV, Setup="ConvSetup", Kinds="ConvMkKinds", MkSet="ConvMk", MaxEl=1), "a root of every type and value")
    ck.conform(cf, cover(ck, "kids", tail=CONV, Setup="ValSetup", Kinds="ConvMkKinds", MkSet="ConvMk", MaxEl=2), "a child of every type and value")
    ck.conform(cf, cover(ck, "lists", tail=CONV, Setup="ConvRing", Kinds="RingKinds", MkSet="RingMk", AtSet="RingAt", MaxEl=5 if ck.thorough else 4), "structures: every transition")
    ck.conform(cf, simulate(ck, "life", 400 if ck.thorough else 64, every=25, Setup="ValSetup", Kinds="ConvKinds", MkSet="ConvMk", AtSet="ConvAtL", SetSet="SetAll", StrSet="StrAll", WrSet="UseWr", RetypeTo="ConvRetype", RegNames="ConvNames", RegTypes="ConvRetype", MaxNames=40, MaxEl=40, Depth=120), "documents converted again and again during their life")
    return ck

def c14():
    ck = Check("C14"); cf = conf()
    again = lambda h: ["!" + x for x in reversed(h[-1])] if isinstance(h[-1], Multi) else []
    for su, n in (("GrownU", 5), ("GrownP", 4), ("GrownC", 4), ("GrownDeep", 7), ("GrownNot", 3)):
        ck.conform(cf, cover(ck, su, tail=again, Setup=su, Kinds="AppKinds", MkSet="AppMk", AtSet="RingAt", MaxEl=n + (1 if ck.thorough else 0)), "every list of small elements appended: " + su)
    life = dict(MkSet="AppMkL", AtSet="ConvAtL", SetSet="SetAll", StrSet="StrAll", WrSet="UseWr", RegNames="ConvNames", RegTypes="ConvRetype", Spaces="AppSpaces", MaxNames=40, MaxEl=40, Depth=120)
    n = 8 if ck.thorough else 1
    ck.conform(cf, simulate(ck, "grow-u", 32 * n, every=25, Setup="AppSetupU", Kinds="AppKindsA", **life), "documents growing and cleared again and again")
    ck.conform(cf, simulate(ck, "grow-p", 16 * n, every=25, Setup="AppSetupP", Kinds="AppKindsA", **life), "packed documents growing")
    ck.conform(cf, simulate(ck, "life", 24 * n, every=25, Setup="AppSetup", Kinds="AppKindsL", **life), "documents written and appended to during their life")
    return ck
