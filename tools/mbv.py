"""Machinery shared by all checks: builds drivers, runs TLC, executes histories on the real code, validates traces."""
import os, sys, re, json, subprocess, tempfile, shutil, time, hashlib, random, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Fail(Exception):
    """the machinery itself failed: neither a pass nor a violation"""


_dirs = []
def scratch(name="s"):
    base = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp")
    d = tempfile.mkdtemp(prefix="mbv-" + name + "-", dir=base)
    _dirs.append(d)
    return d
def cleanup():
    for d in _dirs:
        shutil.rmtree(d, ignore_errors=True)


def build(variant, *drivers):
    e = dict(os.environ, REPO=REPO, VERIF_BUILD=BUILD)
    lock = os.path.join(BUILD, ".lock")
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(lock, "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", os.path.join(VERIF, "harness/build.sh"), variant, *drivers], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Fail("build failed:\n" + r.stdout[-4000:])
    return [os.path.join(BUILD, variant, d) for d in drivers]


def cfg(spec="Spec", consts=None, **kw):
    """text of a TLC configuration; constants: name -> value, a string starting with '<-' is an operator"""
    L = ["SPECIFICATION " + spec]
    for k in ("VIEW", "CONSTRAINT", "ACTION_CONSTRAINT", "POSTCONDITION"):
        if kw.get(k):
            L.append(k + " " + kw[k])
    for k in ("INVARIANT", "PROPERTY"):
        for v in kw.get(k) or []:
            L.append(k + " " + v)
    L.append("CHECK_DEADLOCK " + ("TRUE" if kw.get("deadlock") else "FALSE"))
    if consts:
        L.append("CONSTANTS")
        for k, v in consts.items():
            L.append("  %s %s" % (k, v) if isinstance(v, str) and v.startswith("<-") else "  %s = %s" % (k, v))
    return "\n".join(L) + "\n"


class Tlc:
    def __init__(self):
        self.out = ""; self.rc = None; self.states = 0; self.distinct = 0; self.lines = []; self.error = None; self.wall = 0; self.errs = []


def tlc(module, cfgtext, workers=1, simulate=None, depth=None, seed=None, env=None, timeout=800, heap="3g", keep=None, on_line=None,
        stop_on_error=True, extra=()):
    """runs TLC on spec/<module>.tla; keep: predicate of lines to collect"""
    d = scratch("tlc")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    open(os.path.join(d, "run.cfg"), "w").write(cfgtext)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", TLA, "tlc2.TLC", "-config", "run.cfg", "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth: cmd += ["-depth", str(depth)]
        cmd += ["-seed", str(seed if seed is not None else SEED)]
    cmd += list(extra) + [module + ".tla"]
    t = Tlc(); t0 = time.time()
    p = subprocess.Popen(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    killer = threading.Timer(timeout, p.kill); killer.start()
    tail = []; after = 0
    try:
        for line in p.stdout:
            line = line.rstrip("\n")
            if keep and keep(line):
                t.lines.append(line); continue
            if on_line: on_line(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m: t.states, t.distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m: t.states = int(m.group(1))
            if line.startswith("Error:") and not t.error: t.error = line
            if t.error:
                after += 1
                if len(t.errs) < 12: t.errs.append(line[:600])
                if after > 400 and stop_on_error: p.kill(); break
            tail.append(line)
            if len(tail) > 600: del tail[:100]
        p.wait()
    finally:
        killer.cancel()
        if p.poll() is None: p.kill(); p.wait()
        shutil.rmtree(d, ignore_errors=True)
    t.rc = p.returncode; t.out = "\n".join(tail); t.wall = time.time() - t0
    if t.rc and t.rc < 0 and not t.error:
        raise Fail("TLC was ended (signal %d) in %s\n%s" % (-t.rc, module, t.out[-2000:]))
    return t


def untla(line):
    """a line printed by PrintT of a string -> the string"""
    s = line.strip()
    if s.startswith('"') and s.endswith('"'): s = s[1:-1]
    return s.replace('\\"', '"').replace("\\\\", "\\")


class Multi(list):
    """several calls that leave the state unchanged"""

def histories(module, cfgtext, **kw):
    """runs a generator; every printed line "HE[...]" is a list of script lines; "HL[...]": the last one
    leaves the state as it was, such calls are joined to one history per state"""
    t = tlc(module, cfgtext, keep=lambda l: l.startswith('"H'), **kw)
    if t.error or t.rc != 0:
        raise Fail("generator %s failed:\n%s" % (module, t.out[-3000:]))
    H, loops = [], {}
    for l in t.lines:
        u = untla(l); h = json.loads(u[2:])
        if u[1] == "L": loops.setdefault(tuple(h[:-1]), []).append(h[-1])
        else: H.append(h)
    for pre, ops in loops.items():
        for i in range(0, len(ops), 40): H.append(list(pre) + [Multi(ops[i:i + 40])])
    t.lines = []
    return H, t


def par(fn, items, n=NPROC):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def split(L, n):
    n = max(1, min(n, len(L)))
    return [L[i::n] for i in range(n)]


def write_scripts(path, scripts):
    with open(path, "w") as f:
        for sid, ops in scripts:
            f.write("S %s\n" % sid)
            for o in ops: f.write(o + "\n")
            f.write("E\n")


class Conf:
    """conformance: scripts through a driver, its trace through a trace specification"""
    def __init__(self, driver, tracemod, consts=None, view=None, args=(), env=None):
        self.driver, self.mod, self.consts, self.args, self.env = driver, tracemod, consts, args, env
        self.events = 0; self.scripts = 0; self.rejected = []; self.samples = []

    def drive(self, scripts, d):
        sp, tp, wd = os.path.join(d, "scripts"), os.path.join(d, "trace"), os.path.join(d, "work")
        os.makedirs(wd, exist_ok=True)
        write_scripts(sp, scripts)
        r = subprocess.run([self.driver, sp, tp, wd, *self.args], env=dict(os.environ, **(self.env or {})), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=wd, timeout=850)
        if r.returncode != 0:
            raise Fail("driver %s ended with %d: %s" % (self.driver, r.returncode, r.stderr.decode(errors="replace")[-2000:]))
        return tp

    def validate(self, trace, timeout=850):
        """-> number of accepted events, or (script index, reason)"""
        last = [0]; acc = [None]
        def online(l):
            m = re.match(r'<<"AT", (\d+)>>', l)
            if m: last[0] = int(m.group(1)); return
            m = re.match(r'<<"ACCEPTED", (\d+), (\d+)>>', l)
            if m: acc[0] = (int(m.group(1)), int(m.group(2)))
        for attempt in (1, 2):      # a failed evaluation is tried again: TLC itself can fail (memory)
            last[0] = 0
            t = tlc(self.mod, cfg("TSpec", self.consts, POSTCONDITION="Accepted"), env={"TRACE": trace}, on_line=online, timeout=timeout, heap="3g")
            if acc[0]: return acc[0][0], acc[0][1], None
        if t.error and last[0]: return last[0], -1, "\n".join(t.errs) + t.out[-600:]   # evaluation failed while reading the script that starts at last[0]
        raise Fail("trace validation failed:\n" + "\n".join(t.errs) + t.out[-3000:])

    def run(self, scripts, chunks=NPROC, maxrej=1):
        """validates all scripts; returns list of rejected (script, event)"""
        parts = split(scripts, chunks)
        def one(part):
            rej = []; d = scratch("run"); ev = 0; n = 0
            try:
                while part:
                    tr = self.drive(part, d)
                    L = open(tr, errors="replace").read().split("\n")
                    if L and L[-1] == "": L.pop()
                    k, total, err = self.validate(tr)
                    if err is None and k == len(L): ev += k; n += len(part); break
                    # index of the script in which event k (0 based, first not accepted) lies
                    starts = [i for i, x in enumerate(L) if x.startswith('{"n":"RESET"')]
                    at = (k if err is None else k - 1)
                    j = max(i for i, s in enumerate(starts) if s <= at)
                    ev += starts[j]; n += j
                    rej.append((part[j], L[at][:4000] if err is None else "(evaluation) " + err[:1500] + L[at][:1000]))
                    part = part[j + 1:]
                    if len(rej) >= maxrej: break
            finally:
                shutil.rmtree(d, ignore_errors=True)
            return rej, ev, n
        res = par(one, parts)
        out = []
        for rej, ev, n in res:
            out += rej; self.events += ev; self.scripts += n
        self.rejected += out
        return out

    def again(self, script):
        """re-runs one script alone; True when it is rejected again"""
        d = scratch("again")
        tr = self.drive([script], d)
        L = open(tr, errors="replace").read().strip("\n").split("\n")
        k, total, err = self.validate(tr)
        shutil.rmtree(d, ignore_errors=True)
        if err is None and k == len(L): return None
        return L[min(k, len(L) - 1)][:6000] if err is None else "(evaluation of the event failed) " + err[:1500]


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop; self.level = level; self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.states = 0; self.trans = 0; self.traces = 0; self.events = 0; self.samples = []; self.notes = {}; self.viol = []; self.assume = []
        self.known = load_known(prop); self.seenknown = []
        self.exhaustive = False

    def left(self, total=None):
        return (total or (800 if not self.thorough else 3000)) - (time.time() - self.t0)

    def model(self, t, what):
        """a finished TLC model run"""
        self.states += t.distinct or t.states; self.trans += t.states
        self.notes.setdefault("models", []).append({"model": what, "states": t.distinct or t.states, "transitions": t.states, "wall_s": round(t.wall, 1)})

    def prove(self, module, cfgtext, what, **kw):
        """pure model checking of the specification itself"""
        t = tlc(module, cfgtext, **kw)
        if t.error or t.rc != 0: raise Fail("the specification %s does not satisfy its own properties:\n%s" % (what, t.out[-3000:]))
        self.model(t, what)

    def conform(self, conf, scripts, what):
        t0 = time.time()
        e0, s0 = conf.events, conf.scripts
        rej = conf.run(scripts)
        self.events += conf.events - e0; self.traces += conf.scripts - s0
        self.notes.setdefault("conformance", []).append({"set": what, "histories": conf.scripts - s0, "events": conf.events - e0, "rejected": len(rej), "wall_s": round(time.time() - t0, 1)})
        if scripts: self.samples.append({"set": what, "history": scripts[len(scripts) // 2][1][:40]})
        for script, ev in rej:
            if len(self.viol) >= 3: break
            why = conf.again(script)
            if why is None:
                raise Fail("a rejection was not repeated: script %s event %s" % (script, ev))
            k = self.match_known(script, why)
            if k: self.seenknown.append(k); continue
            self.violation(what, script, why, conf)
        return rej

    def match_known(self, script, why):
        for k in self.known:
            if k.get("history") and k["history"] == script[1]: return k
        return None

    def violation(self, what, script, why, conf=None):
        d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (self.prop, len(self.viol)))
        with open(p, "w") as f:
            f.write("# property %s, set %s\n# rejected event:\n# %s\n" % (self.prop, what, why.replace("\n", "\n# ")))
            if conf: f.write("# replay: %s THIS_FILE TRACE WORKDIR, then TLC on %s with TRACE set\n" % (conf.driver, conf.mod))
            f.write("S %s\n%s\nE\n" % (script[0], "\n".join(script[1])))
        self.viol.append(p)

    def finish(self):
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces, "events_validated": self.events, "samples": self.samples[:8]}
        cov.update(self.notes)
        if self.exhaustive: cov["exhaustive"] = True
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.seenknown: print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for v in self.viol: print("VIOLATION property=%s replay=%s" % (self.prop, v))
        print("%s: %d model states, %d histories (%d events) validated, %d violations, %.1f s" % (self.prop, self.states, self.traces, self.events, len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0


def load_known(prop):
    """known-findings.txt: 'known: property=<id> key=<...> <what>' lines are findings that were not repaired"""
    p = os.path.join(VERIF, "known-findings.txt"); R = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: R.append({"key": m.group(2), "what": m.group(3)})
    return R
