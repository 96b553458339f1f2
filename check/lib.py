"""Common machinery of the checks: building the harness from /repo's working
tree, running jobs in the real code, running TLC, evidence and verdicts.

Exit codes: 0 held, 1 VIOLATION, 2 the check itself could not run."""
import json, os, queue, random, re, select, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 8
T0 = time.time()


class ToolError(Exception):
    pass


def N(quick, thorough):
    return thorough if THOROUGH else quick


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- building
def cargo_env():
    env = dict(os.environ)
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/bin:" + os.environ.get("PATH", ""),
        RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
        RUSTC_WRAPPER="",
    )
    env.pop("RUSTFLAGS", None)
    return env


_built = None


def build():
    """Build the harness against /repo's current sources; returns the binary."""
    global _built
    if _built:
        return _built
    os.makedirs(BUILD, exist_ok=True)
    # cargo goes by mtime: make it look at every source again
    for root, dirs, files in os.walk(os.path.join(REPO, "crates")):
        dirs[:] = [d for d in dirs if d != "target"]
        for f in files:
            if f.endswith((".rs", ".pest")):
                try:
                    os.utime(os.path.join(root, f))
                except OSError:
                    pass
    h = os.path.join(VERIF, "harness")
    p = subprocess.run(
        ["cargo", "build", "--offline", "--locked"], cwd=h, env=cargo_env(), capture_output=True, text=True
    )
    if p.returncode != 0:
        print(p.stderr[-6000:])
        raise ToolError("harness does not build")
    _built = os.path.join(BUILD, "target", "debug", "vharness")
    log("harness built")
    return _built


# ---------------------------------------------------------------- running jobs
class _Proc:
    def __init__(self, binary):
        self.p = subprocess.Popen(
            [binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0
        )
        self.buf = b""

    def feed(self, lines):
        def w():
            try:
                for k in range(0, len(lines), 64):
                    self.p.stdin.write("".join(lines[k : k + 64]).encode())
                self.p.stdin.close()
            except (BrokenPipeError, OSError, ValueError):
                pass

        threading.Thread(target=w, daemon=True).start()

    def line(self, timeout):
        """next line, None at end of file, False on timeout"""
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return False
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return False
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                return None
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.p.stdout.close()


def _shard(binary, jobs, out, timeout):
    k = 0
    while k < len(jobs):
        pr = _Proc(binary)
        pr.feed([json.dumps(j) + "\n" for j in jobs[k:]])
        while k < len(jobs):
            l = pr.line(timeout)
            if l is None or l is False:
                pr.kill()
                j = jobs[k]
                why = "hang" if l is False else "abort rc=%s" % pr.p.returncode
                out[j["id"]] = {"id": j["id"], "crash": why}
                k += 1
                break
            r = json.loads(l)
            out[jobs[k]["id"]] = r
            k += 1
        else:
            pr.kill()


def run_jobs(jobs, timeout=20, shards=None, isolate=True):
    """Run all jobs in the real code. A job that kills or hangs the process is
    run again for one crate at a time, to attribute it."""
    binary = build()
    for i, j in enumerate(jobs):
        j["id"] = i
    n = min(shards or CPUS, max(1, len(jobs)))
    out = {}
    ts = []
    for s in range(n):
        part = jobs[s::n]
        t = threading.Thread(target=_shard, args=(binary, part, out, timeout))
        t.start()
        ts.append(t)
    for t in ts:
        t.join()
    # ended from outside (memory ran out, perhaps because of another process):
    # once more, alone
    for j in [j for j in jobs if out[j["id"]].get("crash") == "abort rc=-9"][:8]:
        _shard(binary, [j], out, timeout)
    if isolate:
        bad = [j for j in jobs if "crash" in out[j["id"]] and j["op"] in ("parse", "eval")]
        for j in bad[:40]:
            default = "ABCDEFG" if j["op"] == "parse" else "DLEFG"
            merged = None
            rr = {}
            for c in j.get("cr", default):
                jj = dict(j, cr=c, id=0)
                o = {}
                _shard(binary, [jj], o, timeout)
                if "crash" in o[0]:
                    rr[c] = {"ok": -1, "panic": "process " + o[0]["crash"]}
                else:
                    rr[c] = o[0]["r"][c]
                    merged = o[0]
            m = dict(merged or {"q": [ord(x) for x in j["q"]]})
            m.update(id=j["id"], r=rr)
            out[j["id"]] = m
    res = [out[j["id"]] for j in jobs]
    log("ran %d jobs in the real code" % len(jobs))
    return res


def run_fresh(jobs, timeout=120):
    """Run every job in a process of its own."""
    binary = build()
    out = {}
    for i, j in enumerate(jobs):
        j["id"] = i
    it = iter(jobs)
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                j = next(it, None)
            if j is None:
                return
            _shard(binary, [j], out, timeout)

    ts = [threading.Thread(target=work) for _ in range(CPUS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    log("ran %d histories in the real code, each in a new process" % len(jobs))
    return [out[j["id"]] for j in jobs]


# ---------------------------------------------------------------- TLC
class TLC:
    pass


def tlc(module, cfg=None, env=None, workers=None, args=(), timeout=800, heap="6g", expect_ok=True):
    """Run TLC on spec/<module>.tla. Returns counts and the printed payloads."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=_scratch())
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e["JAVA_TOOL_OPTIONS"] = ""
    cmd = [
        "java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC",
        "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
        "tlc2.TLC", "-metadir", meta, "-workers", str(workers or CPUS), "-config", (cfg or module) + ".cfg",
        *args, module + ".tla",
    ]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLC()
    r.out = p.stdout + p.stderr
    r.rc = p.returncode
    r.wall = time.time() - t
    r.printed = []
    for l in p.stdout.splitlines():
        if l.startswith('"') and l.endswith('"'):
            try:
                r.printed.append(json.loads(l))
            except ValueError:
                r.printed.append(l[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.search(r"Finished computing initial states: (\d+)", r.out)
    r.steps = r.generated - (int(m.group(1)) if m else 0)
    if expect_ok and (r.rc != 0 or "Error:" in p.stdout):
        print(r.out[-5000:])
        raise ToolError("TLC failed on %s (rc %d)" % (module, r.rc))
    log("TLC %s: %d states, %d distinct, %.1fs" % (cfg or module, r.generated, r.distinct, r.wall))
    return r


def apalache(module, runs, timeout=400):
    """Prove an inductive invariant of spec/<module>.tla for states of any
    size. runs: [(init, invariant, length)]. Returns how many were proved.
    A counterexample is an error of the specification; a solver that gives no
    answer is reported and counted as not proved."""
    import concurrent.futures

    def one(r):
        init, inv, length = r
        d = tempfile.mkdtemp(prefix="apalache-", dir=_scratch())
        e = dict(os.environ, TMPDIR=d, JVM_ARGS="-Xmx3g")
        cmd = ["apalache-mc", "check", "--init=" + init, "--inv=" + inv, "--length=%d" % length, "--out-dir=" + d, module + ".tla"]
        try:
            q = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
            out = q.stdout + q.stderr
        except (subprocess.TimeoutExpired, OSError) as x:
            out = str(x)
        shutil.rmtree(d, ignore_errors=True)
        return out

    t = time.time()
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        outs = list(ex.map(one, runs))
    proved = 0
    for r, out in zip(runs, outs):
        if "Checker has found an error" in out:
            print(out[-3000:])
            raise ToolError("%s does not prove %s => %s" % (module, r[0], r[1]))
        if "The outcome is: NoError" in out:
            proved += 1
        else:
            log("Apalache gave no answer on %s %s: %s" % (module, r[1], out[-300:]))
    log("Apalache %s: %d of %d obligations proved for all sizes, %.1fs" % (module, proved, len(runs), time.time() - t))
    return proved


_scr = None


def _scratch():
    global _scr
    if _scr is None:
        os.makedirs(BUILD, exist_ok=True)
        _scr = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        import atexit

        atexit.register(lambda: shutil.rmtree(_scr, ignore_errors=True))
    return _scr


def write_trace(records, name="trace"):
    p = os.path.join(_scratch(), name + ".ndjson")
    with open(p, "w") as f:
        for r in records:
            f.write(json.dumps(r) + "\n")
    return p


NCH = 32


def validate(module, records, name=None, timeout=800, extra=None):
    """Validate a trace: one specification step per record. Returns the list
    of (record index, details) that the specification does not allow."""
    if not records:
        return [], None
    for i, r in enumerate(records):
        r["id"] = i
    p = write_trace(records, name or module)
    env = {"TRACE": p}
    env.update(extra or {})
    r = tlc(module, env=env, timeout=timeout)
    if r.distinct != len(records) + NCH:
        print(r.out[-3000:])
        raise ToolError("trace not consumed completely: %d of %d" % (r.distinct - NCH, len(records)))
    bad = []
    for x in r.printed:
        if isinstance(x, str) and x.startswith("MISMATCH "):
            d = json.loads(x[9:])
            bad.append((d["id"], d["bad"]))
    return bad, r


# ---------------------------------------------------------------- verdicts
def s(cps):
    return "".join(map(chr, cps))


class Check:
    """Collects what one check explored and found; writes evidence and exits."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.viol = []  # (signature, description, replay record)
        self.assumptions = []
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        self.known = [k for k in kf["findings"] if k["property"] == prop and k["status"] == "known"]
        self.rng = random.Random("%s/%d" % (prop, SEED))

    def model(self, r):
        """account for an exhaustive TLC run"""
        self.states += r.distinct
        self.transitions += r.steps

    def validated(self, n, r=None):
        self.traces += n
        if r is not None:
            self.states += r.distinct
            self.transitions += r.steps

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def violation(self, sig, desc, replay, key=None):
        """sig: kind of violation; key: what known findings are matched against"""
        self.viol.append((sig, desc, replay, key or sig))

    def finish(self):
        shown = {}
        new = []
        for sig, desc, rep, key in self.viol:
            k = next((k for k in self.known if re.fullmatch(k["match"], key, re.S)), None)
            if k:
                shown.setdefault(k["id"], (k, 0))
                shown[k["id"]] = (k, shown[k["id"]][1] + 1)
            else:
                new.append((sig, desc, rep))
        for k in self.known:
            n = shown.get(k["id"], (k, 0))[1]
            print("KNOWN-FINDING: property=%s %s [%s, seen %d times in this run]" % (self.prop, k["what"], k["id"], n))
        ev = {
            "property": self.prop,
            "tier": "thorough" if THOROUGH else "quick",
            "seed": SEED,
            "level": self.level,
            "coverage": dict(
                {
                    "states": self.states,
                    "transitions": self.transitions,
                    "traces_validated_against_impl": self.traces,
                    "samples": self.samples or ["none"],
                },
                **self.cov,
            ),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - T0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([{"sig": a, "what": b, "replay": c} for a, b, c in new[:200]], f, indent=1)
            seen = set()
            for a, b, c in new:
                if a not in seen and len(seen) < 12:
                    seen.add(a)
                    print("  %s: %s" % (a, b))
            print("%d violations, %d kinds" % (len(new), len({a for a, _, _ in new})))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.exit(1)
        log("property %s held: %d states, %d traces" % (self.prop, self.states, self.traces))
        sys.exit(0)


def main(fn):
    try:
        fn()
    except SystemExit:
        raise
    except ToolError as e:
        print("TOOL ERROR:", e)
        sys.exit(2)
    except Exception:
        import traceback

        traceback.print_exc()
        sys.exit(2)
