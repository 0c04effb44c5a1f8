#!/usr/bin/env python3
"""Decides one property:  check.py PID [--tier quick|thorough] [--seed N] [--keep]

1. builds the library from /repo's working tree together with the drivers of harness/
2. model-checks the TLA+ specification of the part the property is about (plan.MODELS)
3. records histories of the real code (plan.RUNS) -- random ones and ones generated from the
   specification by TLC -- and has TLC decide whether each is a behaviour of the specification

exit 0: held on everything explored; exit 1 + VIOLATION line: not; exit 2: could not decide.
"""
import sys, os, subprocess, hashlib, json, re, shutil, time, threading, collections, signal, random
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan

REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
SPEC, HARNESS = os.path.join(ROOT, "spec"), os.path.join(ROOT, "harness")
CXX = "g++"
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-DLBDD_HARNESS"]
SAN = ["-fsanitize=address"]

class Undecided(Exception): pass
log_lock = threading.Lock()
def say(*a):
    with log_lock: print(*a, flush=True)

def read(p):
    with open(p, "rb") as f: return f.read()

# ------------------------------------------------------------------------------------- building
def sources():
    src = []
    for d in ("src", "include"):
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            src += [os.path.join(dp, f) for f in fn if f.endswith((".cpp", ".h", ".hxx", ".hpp", ".cc", ".c", ".inl"))]
    return sorted(src)

class Build:
    def __init__(self, drivers, san=True):
        self.flags = BASE + (SAN if san else [])
        h = hashlib.sha256(" ".join(self.flags).encode())
        for p in sources() + sorted(os.path.join(HARNESS, f) for f in os.listdir(HARNESS)):
            h.update(p.encode() + b"\0" + read(p) + b"\0")
        self.dir = os.path.join(BUILD, h.hexdigest()[:20])
        self.drivers = drivers
        self.san = san

    def compile(self, src, obj):
        if os.path.exists(obj): return None
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + self.flags + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-c", src, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode: return "%s:\n%s" % (src, r.stdout[-3000:])
        os.rename(tmp, obj)
        return None

    def make(self):
        if os.path.isdir(BUILD):  # keep a few builds only
            old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if not d.startswith("work_")), key=os.path.getmtime)
            for d in [d for d in old if d != self.dir][:-4]: shutil.rmtree(d, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        lib = sorted(p for p in sources() if p.startswith(os.path.join(REPO, "src")) and p.endswith((".cpp", ".cc")))
        jobs = [(p, os.path.join(self.dir, "lib_" + os.path.basename(p) + ".o")) for p in lib]
        jobs += [(os.path.join(HARNESS, d + ".cpp"), os.path.join(self.dir, "drv_" + d + ".o")) for d in self.drivers + ["det"]]
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with ThreadPoolExecutor(NCPU) as ex: errs = [e for e in ex.map(lambda j: self.compile(*j), jobs) if e]
        if errs: raise Undecided("does not compile:\n" + "\n".join(errs))
        objs = [o for p, o in jobs if os.path.basename(o).startswith("lib_")] + [os.path.join(self.dir, "drv_det.o")]
        for d in self.drivers:
            exe = os.path.join(self.dir, d)
            if os.path.exists(exe): continue
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run([CXX] + self.flags + ["-o", tmp, os.path.join(self.dir, "drv_" + d + ".o")] + objs,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode: raise Undecided("does not link: " + r.stdout[-3000:])
            os.rename(tmp, exe)

    def exe(self, d): return os.path.join(self.dir, d)

# ------------------------------------------------------------------------------------- running
def run(cmd, timeout, env=None, cwd=None, out=None):
    """returns (rc, output); rc None: timeout, negative: signal"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, _ = p.communicate()
        return None, o.decode(errors="replace")

ASAN = "detect_leaks=0:hard_rss_limit_mb=4500:malloc_fill_byte=165:max_malloc_fill_size=4096:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"

def tlc(module, cfg, work, name, env=None, workers=1, heap="2g", timeout=600, extra=()):
    meta = os.path.join(work, "meta_" + name)
    e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None); e.update(env or {})
    cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg + ".cfg", "-metadir", meta]
    cmd += list(extra) + [module + ".tla"]
    r = run(cmd, timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return r

def states(o):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", o)
    if not m: return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = os.path.join(BUILD, "work_%s_%d" % (pid, os.getpid()))
        self.viol, self.undecided = [], []
        self.models, self.traces, self.samples = [], [], []
        self.events = collections.Counter(); self.nevents = 0
        self.gen = collections.Counter(); self.pool = {}; self.genlocks = {}
        self.lock = threading.Lock()

    # -- exhaustive checking of the specification itself
    def model(self, m):
        t = time.time()
        rc, o = tlc(m["module"], "mc/" + m["cfg"], self.work, m["cfg"], workers=m.get("workers", 2), heap=m.get("heap", "4g"), timeout=m.get("timeout", 300))
        g, d = states(o)
        ok = rc == 0 and "No error has been found" in o
        with self.lock: self.models.append(dict(model=m["cfg"], states=d, transitions=g, complete=ok, wall_s=round(time.time() - t, 1)))
        if not ok:
            if m.get("expect"):  # a faulty variant of the algorithm that the specification has to reject
                v = re.search(r"(?:Invariant|Action property|Temporal properties|Property) *(\w*) *(?:is|was|were) violated", o)
                if rc not in (0, None) and v:  # which one is found first depends on the workers
                    with self.lock: self.models[-1]["rejected_by"] = v.group(1) or m["expect"]
                    return
            self.undecided.append("model %s: rc=%s\n%s" % (m["cfg"], rc, o[-2500:]))
        elif m.get("expect"): self.undecided.append("model %s: should have been rejected" % m["cfg"])

    # -- scripts generated from the specification
    def generate(self, g, i, path):
        """TLC explores a model and prints the history leading to every transition; some of them become the script"""
        with self.lock: lock = self.genlocks.setdefault(g["cfg"], threading.Lock())
        with lock:
            if g["cfg"] not in self.pool:
                rc, o = tlc(g["module"], "mc/" + g["cfg"], self.work, "gen_" + g["cfg"], timeout=g.get("timeout", 300), heap="4g",
                            extra=["-simulate", "num=%d" % g["sim"], "-depth", str(g["depth"]), "-seed", str(self.seed)] if g.get("sim") else [])
                found = re.findall(r'^"SCRIPT (.*)"$', o, re.M)
                if rc != 0 or not found: raise Undecided("no behaviours generated: rc=%s %s" % (rc, o[-2000:]))
                self.pool[g["cfg"]] = found
        found = [x for x in self.pool[g["cfg"]] if not g.get("want") or re.search(g["want"], x)]
        random.Random(self.seed).shuffle(found)
        some = found[i * g["num"]:(i + 1) * g["num"]] or found[:g["num"]]
        with open(path, "w") as f:
            for x in some: f.write(g.get("prefix", "") + x + g.get("suffix", "") + "\n")
        with self.lock: self.gen["%s (of %d)" % (g["cfg"], len(found))] += len(some)

    # -- one recorded trace
    def drive(self, r, seed, trace, script):
        cmd = [self.build.exe(r["driver"]), "--profile", r["profile"], "--seed", str(seed), "--hist", str(r.get("hist", 1)), "--ops", str(r.get("ops", 100)), "--out", trace]
        if script: cmd += ["--script", script]
        env = dict(os.environ)
        # every other history runs without quarantine, so that addresses are used again at once
        env["ASAN_OPTIONS"] = ASAN + (":quarantine_size_mb=0:thread_local_quarantine_size_kb=0" if seed % 2 else "")
        return cmd, run(cmd, r.get("timeout", 150 if self.tier == "quick" else 600), env=env, cwd=self.work)

    def validate(self, r, trace, name):
        return tlc(r["spec"], r["spec"], self.work, name, env=dict(TRACE=trace, CHECK=self.pid), heap=r.get("heap", "2500m"), timeout=r.get("vtimeout", 240 if self.tier == "quick" else 900))

    def verdict(self, rc, o, n):
        m = re.search(r'<<"ACCEPTED", (\d+)>>', o)
        if rc == 0 and m and int(m.group(1)) == n: return None
        rej = re.findall(r'<<\s*"REJECT".*?>>(?!,)', o, re.S)
        if rej: return "rejected: " + " ".join(rej[0].split())
        st = re.search(r'<<\s*"STUCK", (\d+)', o)
        if st: return "no behaviour of the specification continues at event %s" % st.group(1)
        if rc is None: return "TIMEOUT"
        m = re.search(r"(Attempted to|was not in|cannot|The exception was).*", o)
        return "event cannot be interpreted by the specification: %s" % (o[m.start():m.start() + 300].replace("\n", " ") if m else "rc=%s %s" % (rc, o[-600:]))

    def trace(self, job):
        r, i = job
        seed = self.seed * 1000 + r.get("salt", 0) * 100 + i
        name = "%s_%s_%d_%d" % (r["driver"], r["profile"], r.get("salt", 0), i)
        tr, script = os.path.join(self.work, name + ".ndjson"), None
        if r.get("gen"):
            script = os.path.join(self.work, name + ".script")
            self.generate(r["gen"], i, script)
        if self.viol: return  # enough
        cmd, (rc, o) = self.drive(r, seed, tr, script)
        if rc != 0:
            if rc == 3: raise Undecided("driver: " + o[-500:])
            # a crash is a fact; anything else (time, a kill) has to repeat
            cmd, (rc2, o2) = (cmd, (rc, o)) if rc in (77, -6, -11, -8, -4, -7) and "hard rss limit" not in o else self.drive(r, seed, tr, script)
            if rc2 == rc or (rc2 not in (0, None) and rc is not None):
                return self.violation(name, cmd, tr, script, "the code under test %s: %s" % (
                    "does not terminate" if rc2 is None else "ends with status %s" % rc2, self.crash(o2)), seed)
            if rc2 != 0: raise Undecided("driver %s: rc=%s then %s\n%s" % (name, rc, rc2, o2[-1500:]))
        n = 0; ev = collections.Counter(); first = []
        with open(tr) as f:
            for line in f:
                n += 1
                m = re.match(r'\{"e":"(\w+)"(?:,"op":"(\w+)")?', line)
                ev[m.group(1) + (":" + m.group(2) if m.group(2) else "")] += 1
                if n in (2, 12) and len(line) < 1500: first.append(line.strip())
        rc, o = self.validate(r, tr, name)
        v = self.verdict(rc, o, n)
        if v:
            rc, o = self.validate(r, tr, name + "_again")
            v2 = self.verdict(rc, o, n)
            if v2 == "TIMEOUT": raise Undecided("validation of %s took too long" % name)
            if v2: return self.violation(name, cmd, tr, script, v2, seed)
            raise Undecided("validation of %s: %s, then accepted" % (name, v))
        g, d = states(o)
        with self.lock:
            self.traces.append(dict(driver=r["driver"], profile=r["profile"], seed=seed, events=n, generated=bool(r.get("gen"))))
            self.nevents += n; self.events.update(ev)
            if len(self.samples) < 4 and first: self.samples.append(dict(driver=r["driver"], profile=r["profile"], seed=seed, event=first[-1][:1200]))
        if not KEEP: os.unlink(tr)

    def crash(self, o):
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|terminate called[^\n]*\n?[^\n]*|[^\n]*Assertion[^\n]*|runtime error[^\n]*)", o)
        return (m.group(1) if m else o[-300:]).replace("\n", " ")

    def violation(self, name, cmd, tr, script, what, seed):
        d = os.path.join(EVIDENCE, "replay"); os.makedirs(d, exist_ok=True)
        base = os.path.join(d, "%s_%s" % (self.pid, name))
        if os.path.exists(tr): shutil.copy(tr, base + ".ndjson")
        if script: shutil.copy(script, base + ".script")
        ev = ""
        m = re.search(r'(?:REJECT",|event) (\d+)', what)
        if m and os.path.exists(tr):
            with open(tr) as f: lines = f.read().splitlines()
            k = int(m.group(1)); ev = lines[k - 1] if 0 < k <= len(lines) else ""
        with open(base + ".txt", "w") as f:
            f.write("property %s\n%s\n\nrecorded by: %s\ntrace: %s\nvalidated by: cd %s && TRACE=%s CHECK=%s tlc -config %s.cfg %s.tla\n\nevent:\n%s\n" % (
                self.pid, what, " ".join(cmd), base + ".ndjson", SPEC, base + ".ndjson", self.pid, "*Trace", "*Trace", ev))
        with self.lock: self.viol.append(dict(what=what, replay=base + ".txt", event=ev[:1500]))

    def guarded(self, f, x):
        try: f(x)
        except Undecided as e:
            with self.lock: self.undecided.append(str(e))
        except Exception as e:
            with self.lock: self.undecided.append("%s: %r" % (x, e))

    def main(self):
        t0 = time.time()
        P = plan.PLAN[self.pid]
        os.makedirs(self.work, exist_ok=True)
        try:
            runs = [r for r in P["runs"] if self.tier in r.get("tiers", ("quick", "thorough"))]
            jobs = []
            for k, r in enumerate(runs):
                r = dict(r, salt=k); r.update(r.get(self.tier, {}))
                jobs += [(r, i) for i in range(r.get("shards", 1))]
            models = [m for m in P["models"] if self.tier in m.get("tiers", ("quick", "thorough"))]
            drivers = sorted({r["driver"] for r, i in jobs})
            try:
                self.build = Build(drivers); self.build.make()
                env = dict(os.environ, ASAN_OPTIONS=ASAN)
                rc, o = run([self.build.exe(drivers[0]), "--profile", "none"], 60, env=env)
                if "Shadow memory" in o or "ASan runtime" in o:  # sanitizer cannot start in this environment
                    self.build = Build(drivers, san=False); self.build.make()
            except Undecided as e:
                self.undecided.append(str(e)); jobs = []
            tb = time.time() - t0
            # models use two cores each, validation one
            with ThreadPoolExecutor(NCPU) as ex:
                fs = []
                big = [m for m in models if m.get("workers", 2) > 2]
                for m in models:
                    if m not in big: fs.append(ex.submit(self.guarded, self.model, m))
                for j in jobs: fs.append(ex.submit(self.guarded, self.trace, j))
                for f in fs: f.result()
            for m in big:
                if not self.viol: self.guarded(self.model, m)
            self.wall = time.time() - t0
            self.evidence(tb)
        finally:
            if not KEEP: shutil.rmtree(self.work, ignore_errors=True)
        for v in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
            print("  " + v["what"][:600])
            if v["event"]: print("  event: " + v["event"][:700])
        if self.viol: return 1
        if self.undecided:
            for u in self.undecided: print("UNDECIDED: " + u)
            return 2
        print("property %s: held on %d recorded histories (%d events), %d model states; %.0f s" % (
            self.pid, len(self.traces), self.nevents, sum(m["states"] for m in self.models), self.wall))
        return 0

    def evidence(self, tb):
        os.makedirs(EVIDENCE, exist_ok=True)
        P = plan.PLAN[self.pid]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=sum(m["states"] for m in self.models),
                                transitions=sum(m["transitions"] for m in self.models),
                                traces_validated_against_impl=len(self.traces),
                                samples=self.samples,
                                models=self.models, events_validated=self.nevents, events_by_kind=dict(self.events.most_common()),
                                traces=self.traces, behaviours_generated_from_spec=dict(self.gen), build_s=round(tb, 1)),
                  wall_s=round(self.wall, 1), assumptions=P.get("assumptions", []) + plan.ASSUMPTIONS,
                  violations=len(self.viol))
        if self.viol: ev["coverage"]["violation_details"] = [dict(what=v["what"], replay=v["replay"]) for v in self.viol]
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    KEEP = a.keep
    sys.exit(Check(a.pid, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed).main())
