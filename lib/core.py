"""Framework shared by all checks: build the tools from /repo, run them, have TLC judge the recorded events."""
import concurrent.futures as cf
import multiprocessing
import glob, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OCREVAL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))
# uninitialised variables get a fixed pattern (and memory from malloc, see run), so that what depends on them shows
CFLAGS = ["-std=gnu90", "-D_XOPEN_SOURCE=600", "-w", "-ftrivial-auto-var-init=pattern"]

TOOLS = ("accci accdist accsum accuracy editop editopcost editopsum groupacc ngram nonstopacc synctext vote "
         "wordacc wordaccci wordaccdist wordaccsum wordfreq").split()


class CheckError(Exception):
    """The check itself could not do its work (exit status 2)."""


# ---------------------------------------------------------------- build
def _cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-2000:]))


MAIN_RE = re.compile(rb"^(?:int\s+|void\s+)?main\s*\(", re.M)


def build(outdir, flags=("-O0",), extra_mains=()):
    """Compiles /repo/src into outdir/bin/*; extra_mains are harness sources linked with the library modules."""
    src = os.path.join(REPO, "src")
    obj, bindir = os.path.join(outdir, "obj"), os.path.join(outdir, "bin")
    os.makedirs(obj, exist_ok=True); os.makedirs(bindir, exist_ok=True)
    mains, mods = [], []
    for f in sorted(glob.glob(src + "/*.c")):
        (mains if MAIN_RE.search(open(f, "rb").read()) else mods).append(f)
    o = lambda f: os.path.join(obj, os.path.basename(f)[:-2] + ".o")
    flags = list(flags)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda f: _cc(["gcc", *CFLAGS, *flags, "-I", src, "-c", f, "-o", o(f)]), mains + mods))
        list(ex.map(lambda f: _cc(["gcc", *flags, o(f), *map(o, mods), "-o",
                                   os.path.join(bindir, os.path.basename(f)[:-2]), "-lm", "-lutf8proc"]), mains))
    missing = [t for t in TOOLS if not os.path.exists(os.path.join(bindir, t))]
    if missing:
        raise CheckError("tools were not built: %s" % missing)
    for h in extra_mains:
        _cc(["gcc", "-std=gnu99", "-w", *flags, "-I", src, h, *map(o, mods), "-o",
             os.path.join(bindir, os.path.basename(h)[:-2]), "-lm", "-lutf8proc"])
    return bindir


_F = _ITEMS = None
_HUNG = multiprocessing.Value("i", 0)      # runs that reached their time limit; after several, the others get little time


class Unreadable:
    """In place of an event: the results of a run could not be interpreted."""
    def __init__(self, why):
        self.why = why


def _attempt(f, item):
    try:
        return f(item)
    except (ValueError, LookupError, TypeError, AttributeError, AssertionError):
        return Unreadable(traceback.format_exc()[-1500:])


def _call(i):
    return _attempt(_F, _ITEMS[i])


MAX_OUTPUT = 200 << 20      # bytes in a file


class Result:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


# ---------------------------------------------------------------- the check
class Check:
    """One run of one check. Everything it writes is inside a scratch directory, except evidence and replays."""

    def __init__(self, pid, argv=None):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="ocv-%s-" % pid)
        self.replays = os.path.join(VERIF, "evidence", "replay", pid)
        self.states = self.transitions = self.validated = 0
        self.samples, self.models, self.notes, self.assume = [], [], [], []
        self.violations = []
        self.counts = {}
        self._n = 0
        self._lock = threading.Lock()
        self.bin = None
        self.timeout = 10.0
        self.memory = 3 << 30       # address space of a tool (AddressSanitizer needs more: bin is given then)
        self._ex = cf.ThreadPoolExecutor(2)
        self._models = []
        self.known = load_known(pid)
        self.known_hit = []

    # -------- tools
    def build(self, **kw):
        self.bin = build(os.path.join(self.scratch, "b"), **kw)
        return self.bin

    def dir(self):
        with self._lock:
            self._n += 1
            n = self._n
        d = os.path.join(self.scratch, "r", "%d" % os.getpid(), "%02d" % (n % 97), "%d" % n)
        os.makedirs(d)
        return d

    def run(self, tool, args, cwd, stdin=None, timeout=None, stdout=None, env=None, bin=None, preexec=None):
        """Runs a tool; stdin: bytes or None; stdout: None captures."""
        timeout = timeout or self.timeout
        if _HUNG.value >= 8:
            timeout = min(timeout, 2.0 if _HUNG.value < 40 else 0.5 if _HUNG.value < 200 else 0.15)

        def limits():
            resource.setrlimit(resource.RLIMIT_FSIZE, (MAX_OUTPUT, MAX_OUTPUT))
            if not bin and self.memory:
                resource.setrlimit(resource.RLIMIT_AS, (self.memory, self.memory))
            if preexec:
                preexec()
        with tempfile.TemporaryFile(dir=self.scratch) as so, tempfile.TemporaryFile(dir=self.scratch) as se:
            try:
                p = subprocess.run([os.path.join(bin or self.bin, tool), *args], cwd=cwd,
                                   input=stdin if stdin is not None else b"",
                                   stdout=so if stdout is None else stdout, stderr=subprocess.PIPE if preexec else se,
                                   timeout=timeout, preexec_fn=limits,
                                   env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0", "MALLOC_PERTURB_": "165", "LC_ALL": "C.UTF-8", **(env or {})})
            except subprocess.TimeoutExpired:
                with _HUNG.get_lock():
                    _HUNG.value += 1
                return Result(-999, b"", b"(time limit)", True)
            if p.returncode == -signal.SIGXFSZ:
                return Result(p.returncode, b"", b"(too much output)", False)
            so.seek(0)
            se.seek(0)
            return Result(p.returncode, so.read(), p.stderr if preexec else se.read(1 << 20), False)

    def pmap(self, f, items):
        """[f(x) for x in items] in forked worker processes (f may use self.run and self.dir, and returns plain data)."""
        global _F, _ITEMS
        items = list(items)
        if len(items) < 16:
            res = [_attempt(f, x) for x in items]
        else:
            _F, _ITEMS = f, items
            with multiprocessing.get_context("fork").Pool(NCPU) as pool:
                res = pool.map(_call, range(len(items)), chunksize=max(1, min(50, len(items) // (NCPU * 4))))
        for i, x in enumerate(res):
            if isinstance(x, Unreadable) and len(self.violations) < 5:
                res[i] = _attempt(f, items[i])
                if isinstance(res[i], Unreadable):
                    self.violation("results that cannot be interpreted, for %s" % repr(items[i])[:200], {"why": res[i].why}, {"case": repr(items[i])})
        if any(isinstance(x, Unreadable) for x in res):
            raise CheckError("results could not be interpreted: %s" % next(x.why for x in res if isinstance(x, Unreadable)))
        return res

    # -------- TLC
    def model(self, *a, **kw):
        """Starts a model check (see _model) in the background; finish() waits for it."""
        self._models.append(self._ex.submit(self._model, *a, **kw))

    def _model(self, module, cfg=None, what="", workers=None, extra=(), timeout=600, min_states=2):
        """Model-checks spec/<module>.tla with spec/<cfg>.cfg; it must hold (these are properties of the specification)."""
        cfg = cfg or module
        t = time.time()
        rc, out = tlc(module, cfg, self.scratch, workers=workers or max(1, NCPU // 2), extra=extra, timeout=timeout,
                      env={"TABLES": os.path.join(SPEC, "MCTables.json")})
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
            pass
        if rc != 0 or not m or "No error has been found" not in out:
            raise CheckError("model check of %s/%s failed (rc %s):\n%s" % (module, cfg, rc, out[-3000:]))
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
        if dist < min_states:
            raise CheckError("model check of %s explored only %d states" % (cfg, dist))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "distinct_states": dist, "transitions": gen,
                            "shows": what, "wall_s": round(time.time() - t, 1)})
        return out

    def histories(self, module, cfg, simulate=0, depth=0, timeout=300):
        """The histories that spec/<module>.tla prints with spec/<cfg>.cfg: all, or `simulate` sampled ones."""
        extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 2), "-seed", str(self.seed)] if simulate else []
        rc, out = tlc(module, cfg, self.scratch, workers=1, extra=extra, timeout=timeout, env={"TABLES": os.path.join(SPEC, "MCTables.json")})
        h = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'<<"HISTORY", "(.*)">>', out)]
        if rc != 0 or not h:
            raise CheckError("no histories from %s/%s (rc %s):\n%s" % (module, cfg, rc, out[-2000:]))
        n = re.search(r"([\d,]+) states generated|number of states generated: ([\d,]+)", out)
        n = int((n.group(1) or n.group(2)).replace(",", "")) if n else len(h)
        self.states += n
        self.transitions += n
        return h

    def judge(self, module, events, what="", env=None, tables=None, shards=None, timeout=800, describe=None):
        """Has TLC validate events (a list of dicts) against spec/<module>.tla. Returns the rejected [(event, clauses)].
        `tables(events)` may give additional constants for a shard (written as JSON, named in $TABLES)."""
        if not events:
            raise CheckError("no events were recorded for %s" % module)
        k = shards or max(1, min(NCPU, (len(events) + 24) // 25))
        parts = [events[i::k] for i in range(k)]

        def one(part):
            return self._judge_part(module, part, env, tables, timeout)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, parts))
        rejected = []
        for part, (rej, st, tr) in zip(parts, res):
            self.states += st
            self.transitions += tr
            rejected += [(part[i], c) for i, c in rej]
        self.validated += len(events) - len(rejected)
        self.counts[what or module] = self.counts.get(what or module, 0) + len(events)
        return rejected

    def _judge_part(self, module, part, env, tables, timeout):
        d = self.dir()
        tf = os.path.join(d, "trace.ndjson")
        with open(tf, "w") as f:
            for e in part:
                f.write(json.dumps({k: v for k, v in e.items() if not k.startswith("_")}) + "\n")
        en = {"TRACE": tf}
        if tables:
            tb = os.path.join(d, "tables.json")
            with open(tb, "w") as f:
                json.dump(tables(part), f)
            en["TABLES"] = tb
        en.update(env or {})
        rc, out = tlc(module, "Trace", self.scratch, workers=1, env=en, timeout=timeout, heap="3g")
        rej = [(int(a) - 1, sorted(set(re.findall(r'"([^"]*)"', b))))
               for a, b in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\{[^}]*\})\s*>>', out)]
        ok = rc == 0 and "No error has been found" in out
        if ok:
            m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", out)
            g, s = (int(x.replace(",", "")) for x in m.groups())
            if s != len(part) + 1:
                raise CheckError("%s: %d states for %d events\n%s" % (module, s, len(part), out[-2000:]))
            shutil.rmtree(d, ignore_errors=True)
            return rej, s, g
        # The specification could not evaluate some event: find the events, each is outside the specified domain.
        if "semantic analysis failed" in out or rc == -999 or "OutOfMemory" in out or "StackOverflow" in out and len(part) == 1:
            raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, rc, out[-3000:]))
        if len(part) == 1:
            if not re.search(r"evaluat|TLC threw|Attempted|argument", out):
                raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, rc, out[-3000:]))
            self.notes.append("unevaluable: " + out[-1500:])
            return [(0, ["cannot-be-evaluated"])], 1, 1
        h = len(part) // 2
        r1, s1, t1 = self._judge_part(module, part[:h], env, tables, timeout)
        r2, s2, t2 = self._judge_part(module, part[h:], env, tables, timeout)
        return r1 + [(i + h, c) for i, c in r2], s1 + s2, t1 + t2

    # -------- results
    def sample(self, x):
        """x: a function that gives a sample of what was checked."""
        try:
            self.samples.append(x())
        except Exception:
            if not self.violations:
                raise

    def violation(self, key, detail, files=None, cmd=None):
        """Records a confirmed violation: `key` identifies it (for the known-findings file)."""
        for k in self.known:
            if k and k in key:
                self.known_hit.append((k, key))
                return
        self.violations.append((key, detail, files or {}, cmd))

    def finish(self):
        for f in self._models:
            f.result()
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "models": self.models, "events": self.counts,
                           "samples": self.samples[:4] or ["(none)"]},
              "assumptions": self.assume + self.notes[:3], "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for k, key in sorted(set(self.known_hit)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, key))
        shutil.rmtree(self.replays, ignore_errors=True)
        for n, (key, detail, files, cmd) in enumerate(self.violations[:int(os.environ.get("SHOW", "5"))]):
            d = os.path.join(self.replays, "%d" % (n + 1))
            os.makedirs(d)
            for name, data in files.items():
                with open(os.path.join(d, name), "wb") as f:
                    f.write(data if isinstance(data, bytes) else str(data).encode())
            with open(os.path.join(d, "detail.json"), "w") as f:
                json.dump({"key": key, "detail": detail, "cmd": cmd}, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (self.pid, d))
            print("   " + key[:300])
        if len(self.violations) > 5:
            print("   ... and %d more" % (len(self.violations) - 5))
        print("%s %s: %d states, %d transitions, %d implementation traces validated, %d violations, %.1f s"
              % (self.pid, self.tier, self.states, self.transitions, self.validated, len(self.violations),
                 time.time() - self.t0))
        return 1 if self.violations else 0

    def cleanup(self):
        self._ex.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(pid):
    """Entries 'KNOWN property=<id> <key>' of known_findings.txt; 'fixed:' entries suppress nothing."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf8"):
            m = re.match(r"KNOWN property=(\S+) (.+)$", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    except FileNotFoundError:
        pass
    return out


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, scratch, workers=1, env=None, extra=(), timeout=600, heap=None, cwd=None):
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss64m",
           "-Xmx" + (heap or "6g"), "-Djava.io.tmpdir=" + md, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-nowarning", *extra, "-config", os.path.join(SPEC, cfg + ".cfg"),
           os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=cwd or scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env={**os.environ, **(env or {})})
        out = p.stdout.decode("utf8", "replace")
        return p.returncode, out
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace") + "\nTLC time limit"
    finally:
        shutil.rmtree(md, ignore_errors=True)


def main(pid, body):
    c = Check(pid)
    try:
        body(c)
        rc = c.finish()
    except Exception as e:
        if isinstance(e, CheckError):
            print("ERROR in check %s: %s" % (pid, e))
        else:
            traceback.print_exc()
            print("ERROR in check %s: see above" % pid)
        rc = 2
        if c.violations:    # what was found before counts
            c._models = []
            rc = c.finish()
    finally:
        c.cleanup()
    return rc
