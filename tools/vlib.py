"""Shared machinery of the checks: cached builds from /repo's working tree, harness runs with crash
attribution, TLC runs (model checking and trace validation), evidence and violation reporting."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
H = os.path.join(V, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = ["clang++", "-std=gnu++14", "-O0", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + H, "-I" + REPO + "/src", "-isystem", "/usr/include/eigen3"]
CORES = max(2, min(8, os.cpu_count() or 2))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def files_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, sub, files in sorted(os.walk(d)):
            sub.sort()
            for f in sorted(files):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


_src = None


def src_hash():
    global _src
    if _src is None:
        _src = files_hash([REPO + "/src"], (".hpp", ".h", ".cpp", ".hxx"))
    return _src


def java_classes():
    src = os.path.join(V, "java", "Num.java")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(B, "classes-" + key)
    if not os.path.exists(os.path.join(d, "Num.class")):
        t = d + ".%d" % os.getpid()
        os.makedirs(t, exist_ok=True)
        r = sh(["javac", "-nowarn", "-cp", JARS, "-d", t, src])
        if r.returncode != 0:
            raise ModelError("javac failed:\n" + r.stdout)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


class ModelError(Exception):
    pass


def trim(out):
    return "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing", "Semantic", "Loading", "Warning", "(Use")))[-4000:]


class BuildError(Exception):
    pass


def _compile(job):
    src, defs, extra = job
    own = os.path.join(H, src)
    key = hashlib.sha256(json.dumps([CXX, defs, extra]).encode() + open(own, "rb").read() +
                         files_hash([H], (".hpp", ".h")).encode() + src_hash().encode()).hexdigest()[:24]
    d = os.path.join(B, "obj")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, key + ".o")
    if not os.path.exists(o):
        t = "%s.%d" % (o, os.getpid())
        r = sh(CXX + extra + ["-D" + x for x in defs] + ["-c", own, "-o", t])
        if r.returncode != 0:
            raise BuildError("compiling %s %s:\n%s" % (src, defs, r.stdout[-4000:]))
        os.rename(t, o)
    return o


class Split:
    """executables of units that must not be linked together; scenarios are told apart by the name of their unit"""
    def __init__(self, exes):
        self.exes = exes

    def of(self, line):
        return next(e for e, names in self.exes if names is None or line.split()[0] in names)


def unit_name(u):
    return next(d.split("=", 1)[1].strip('"') for d in u[1] if d.startswith(("NAME=", "UNIT=")))


def build(units, extra=()):
    """units: list of (source file in harness/, [defines]); returns the executable."""
    heap = [u for u in units if any(d.startswith("EIGEN_STACK_ALLOCATION_LIMIT") for d in u[1])]
    if heap:    # the limit changes the layout of class templates
        return Split([(build1([u], extra), {unit_name(u)}) for u in heap] + [(build1([u for u in units if u not in heap], extra), None)])
    return build1(units, extra)


def build1(units, extra=()):
    jobs = [("main.cpp", [], list(extra))] + [(s, list(d), list(extra)) for s, d in units]
    with cf.ThreadPoolExecutor(CORES) as ex:
        objs = list(ex.map(_compile, jobs))
    exe = os.path.join(B, "obj", "exe-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        t = "%s.%d" % (exe, os.getpid())
        r = sh(["clang++"] + list(extra) + objs + ["-o", t])
        if r.returncode != 0:
            raise BuildError(r.stdout)
        os.rename(t, exe)
    return exe


def toolchain_ok():
    try:
        _compile(("main.cpp", [], []))
        return True
    except BuildError:
        return False


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], [], []
        self.extra = {}
        self.violations = []
        self.dir = os.path.join(B, "run", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.known = load_known(pid)
        self.known_hit = []
        self.misfits = {}

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # -------------------------------------------------------------- harness
    def run_harness(self, exe, scenarios, timeout=120, procs=None, env=None):
        """scenarios: list of (id, line). Returns {id: record}. A crash or a hang is attributed to the running scenario."""
        if isinstance(exe, Split):
            out = {}
            for e, _ in exe.exes:
                out.update(self.run_harness(e, [x for x in scenarios if exe.of(x[1]) == e], timeout, procs, env))
            return {i: out[i] for i, _ in scenarios if i in out}
        out, bad = {}, []
        procs = procs or CORES
        chunks = [scenarios[i::procs] for i in range(procs)]
        with cf.ThreadPoolExecutor(procs) as ex:
            for o, b in ex.map(lambda c: self._run_chunk(exe, c[1], c[0], timeout, env), enumerate(chunks)):
                out.update(o)
                bad += b
        for sid, why, line in bad:
            self.violate("scenario %s: the implementation %s" % (sid, why), {"scenario": sid, "line": line, "why": why})
        return out

    @staticmethod
    def _run_watched(cmd, base, timeout, env):
        """Run a harness; a hang is one scenario that takes longer than the timeout, not a long list of scenarios."""
        with open(base + ".err", "w") as err:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env)
            cur, since = None, time.time()
            while True:
                try:
                    p.wait(0.5)
                    break
                except subprocess.TimeoutExpired:
                    now = None
                    try:
                        now = open(base + ".out.current").read()
                    except OSError:
                        pass
                    if now != cur:
                        cur, since = now, time.time()
                    elif time.time() - since > timeout:
                        p.kill()
                        p.wait()
                        raise
        return subprocess.CompletedProcess(cmd, p.returncode, "", open(base + ".err", errors="replace").read())

    def _run_chunk(self, exe, todo, idx, timeout, env):
        out, bad, todo = {}, [], list(todo)
        rnd = 0
        while todo:
            rnd += 1
            base = os.path.join(self.dir, "h%d-%d" % (idx, rnd))
            with open(base + ".in", "w") as f:
                for sid, line in todo:
                    f.write("%s %s\n" % (sid, line))
            why = None
            try:
                r = self._run_watched([exe, base + ".in", base + ".out"], base, timeout, env)
                if r.returncode == 3:
                    raise ModelError("harness usage error: " + r.stderr[-500:])
                if r.returncode != 0:
                    why = "crashed (exit %d): %s" % (r.returncode, r.stderr.strip()[-300:])
            except subprocess.TimeoutExpired:
                why = "did not return within %d s" % timeout
            if os.path.exists(base + ".out"):
                for line in open(base + ".out"):
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    out[rec["id"]] = rec
            if why is None:
                break
            cur = open(base + ".out.current").read().strip() if os.path.exists(base + ".out.current") else todo[0][0]
            k = [i for i, (s, _) in enumerate(todo) if s == cur]
            k = k[0] if k else 0
            bad.append((todo[k][0], why, todo[k][1]))
            todo = todo[k + 1:]
            if len(bad) > 3:
                break
        return out, bad

    # -------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, heap="2g", extra=(), tag=""):
        meta = os.path.join(self.dir, "tlc-%s-%s-%s" % (module, cfg, tag))
        os.makedirs(meta, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Djava.io.tmpdir=" + self.dir, "-Xmx" + heap, "-cp", java_classes() + ":" + JARS,
               "tlc2.TLC", "-config", cfg + ".cfg", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock"] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
            o, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            o, rc = (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else (ex.stdout or ""), -9
        shutil.rmtree(meta, ignore_errors=True)
        return TLCResult(o, rc)

    def model(self, module, cfg=None, workers=4, timeout=600, env=None, heap="4g", extra=(), expect=None):
        """Model-check a design specification; a failure here is an error of the check, not of the code."""
        r = self.tlc(module, cfg or module, env, workers, timeout, heap, extra)
        if not r.ok:
            print(r.out[-5000:])
            raise ModelError("TLC failed on the design model %s" % module)
        self.states += r.distinct
        self.transitions += r.generated
        self.log("model %s/%s: %d distinct states, %d transitions" % (module, cfg or module, r.distinct, r.generated))
        self.notes.append("model %s/%s: %d distinct states, %d generated" % (module, cfg or module, r.distinct, r.generated))
        return r

    def validate(self, module, records, cfg=None, shards=CORES, timeout=800, env=None, count=True):
        """Trace validation: every record (JSON line with an id) must be accepted by the trace specification.
        Returns {id: [reasons]} of rejected records (confirmed by a second run)."""
        records = list(records)
        if not records:
            return {}
        shards = max(1, min(shards, len(records)))
        order = sorted(records, key=lambda r: -len(r.get("ev", [])) if isinstance(r.get("ev"), list) else 0)
        parts = [order[i::shards] for i in range(shards)]
        rej = {}
        with cf.ThreadPoolExecutor(shards) as ex:
            for part, r in zip(parts, ex.map(lambda x: self._validate_part(module, cfg or module, x[1], x[0], timeout, env), enumerate(parts))):
                if count:
                    self.states += r.distinct
                    self.transitions += r.generated
                rej.update(r.rejected)
        if count:
            self.traces += len(records) - len(rej)
        if rej and count:
            again = self._validate_part(module, cfg or module, [r for r in records if r["id"] in rej][:20], 99, timeout, env)
            rej = {k: v for k, v in rej.items() if k in again.rejected}
        return rej

    def _validate_part(self, module, cfg, part, idx, timeout, env):
        p = os.path.join(self.dir, "trace-%s-%s.ndjson" % (module, idx))
        with open(p, "w") as f:
            for r in part:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        e = {"TRACE": p}
        e.update(env or {})
        r = self.tlc(module, cfg, e, 1, timeout, "3g", tag=str(idx))
        if (not r.ok and not r.rejected) or "is violated" in r.out or "TLC threw" in r.out or "evaluating" in r.out:
            if r.rc == -9 or "OutOfMemory" in r.out or "GC overhead" in r.out or "semantic analysis failed" in r.out or "StackOverflow" in r.out:
                raise ModelError("TLC failed on %s:\n%s" % (module, trim(r.out)))
            # a record the specification cannot even be evaluated on (say, a result of the wrong shape) is not a behaviour of it
            if len(part) == 1:
                self.misfits.setdefault(str(idx)[:2] == "99", [0])[0] += 1
                r.rejected = {part[0]["id"]: ["the record does not fit the specification: " + re.sub(r"\s+", " ", trim(r.out))[:600]]}
                return r
            # a few of them settle the matter; the search for all of them could take very long
            done = self.misfits.setdefault(str(idx)[:2] == "99", [0])
            if done[0] >= 4:
                r.rejected = {}
                return r
            halves = [self._validate_part(module, cfg, h, "%s%s" % (idx, x), timeout, env) for x, h in (("a", part[:len(part) // 2]), ("b", part[len(part) // 2:]))]
            r.rejected = {}
            for h in halves:
                r.rejected.update(h.rejected)
            r.distinct, r.generated = sum(h.distinct for h in halves), sum(h.generated for h in halves)
            if not r.rejected and not all(h.ok for h in halves) and done[0] < 4:
                raise ModelError("TLC failed on %s:\n%s" % (module, trim(r.out)))
        return r

    # -------------------------------------------------------------- reporting
    def violate(self, what, replay, key=None):
        for k in self.known:
            if key is not None and k == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
                return
        if len(self.violations) < 5:
            d = os.path.join(B, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, len(self.violations)))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1)
            self.log("violation:", what)
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, V)), flush=True)
        self.violations.append(what)

    def report(self, rejected, records, scen=None):
        by = {r["id"]: r for r in records}
        for sid, why in rejected.items():
            self.violate("trace %s rejected: %s" % (sid, "; ".join(why[:6])), {"scenario": (scen or {}).get(sid), "record": by.get(sid), "reasons": why})

    def self_test(self, module, records, corrupt, cfg=None, env=None):
        """Binding self-test: corrupted copies of accepted records must be rejected."""
        bad = []
        for i, r in enumerate(records):
            c = corrupt(json.loads(json.dumps(r)), i)
            if c is not None:
                c["id"] = "corrupted-%d" % i
                bad.append(c)
        if not bad:
            raise ModelError("self-test has nothing to corrupt")
        rej = self._validate_part(module, cfg or module, bad, 98, 300, env).rejected
        miss = [c["id"] for c in bad if c["id"] not in rej]
        self.notes.append("binding self-test: %d corrupted records, %d rejected" % (len(bad), len(bad) - len(miss)))
        if miss:
            raise ModelError("binding self-test failed: corrupted records accepted: %s" % miss)

    def finish(self):
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                                "samples": self.samples[:3], "notes": self.notes}, **self.extra),
              "assumptions": self.assumptions, "violations": len(self.violations), "wall_s": round(time.time() - self.t0, 1)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("done: %d states, %d transitions, %d traces validated, %d violations" % (self.states, self.transitions, self.traces, len(self.violations)))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        sys.exit(1 if self.violations else 0)


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.ok = rc == 0 and "No error has been found" in out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("states generated ", "states generated, "))
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.rejected = {}
        mism = {}
        for t in re.findall(r'<<\s*"(MISMATCH|REJECTED)",\s*"([^"]*)",\s*(.*?)>>', out, re.S):
            if t[0] == "MISMATCH":
                mism.setdefault(t[1], []).append("step %s" % re.sub(r"\s+", " ", t[2]))
            else:
                self.rejected[t[1]] = ["matched %s steps" % t[2]]
        for k in self.rejected:
            self.rejected[k] += mism.get(k, [])


def load_known(pid):
    p = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out
