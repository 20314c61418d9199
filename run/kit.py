"""Machinery shared by all checks: build the harness from /repo's working tree,
generate histories from a TLA+ specification, execute them on the real code,
and validate the recorded traces against the specification with TLC."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = min(8, os.cpu_count() or 4)
CXXFLAGS = ["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-ffp-contract=off",
            "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


class CheckError(Exception):
    """The check itself could not answer (neither pass nor violation)."""


# --------------------------------------------------------------------------
def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _walk(d, exts):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(exts)]


def build():
    """Compiles the library and the harness; returns the harness path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _build_java()
        return _build_harness()


def _build_java():
    src = _walk(os.path.join(VERIF, "java"), (".java",))
    out = os.path.join(BUILD, "java")
    stamp = os.path.join(out, "stamp-" + _digest(src))
    if os.path.exists(stamp):
        return
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    r = subprocess.run(["javac", "-cp", TLA, "-d", out] + src, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("javac failed: " + r.stderr)
    open(stamp, "w").close()


def _build_harness():
    heads = _walk(os.path.join(REPO, "include"), (".h",)) + _walk(os.path.join(VERIF, "harness"), (".h",))
    lib = _walk(os.path.join(REPO, "src"), (".cc",))
    har = _walk(os.path.join(VERIF, "harness"), (".cc",))
    flagkey = hashlib.sha256(" ".join(CXXFLAGS).encode()).hexdigest()[:6]
    hd = _digest(heads) + flagkey
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    objs, jobs = [], []
    for s in lib + har:
        o = os.path.join(objdir, os.path.basename(s)[:-3] + "-" + _digest([s]) + hd[:12] + flagkey + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    exe = os.path.join(BUILD, "vh-" + hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:16])
    if os.path.exists(exe):
        return exe

    def comp(job):
        s, o = job
        t = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + CXXFLAGS + ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "harness"),
                            "-c", s, "-o", t], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (s, r.stderr[-4000:]))
        os.replace(t, o)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(comp, jobs))
    tmp = exe + ".tmp"
    r = subprocess.run(["g++"] + CXXFLAGS + sorted(objs) + ["-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("linking the harness failed:\n" + r.stderr[-4000:])
    os.replace(tmp, exe)
    # drop stale objects and executables of earlier trees
    keep = set(objs)
    for f in glob.glob(os.path.join(objdir, "*.o")):
        if f not in keep and time.time() - os.path.getmtime(f) > 3600:
            os.unlink(f)
    for f in glob.glob(os.path.join(BUILD, "vh-*")):
        if f != exe and time.time() - os.path.getmtime(f) > 3600:
            os.unlink(f)
    return exe


# --------------------------------------------------------------------------
def tlc(module, cfg, args=(), env=None, timeout=600, heap="3g", workers="1"):
    """Runs TLC; returns (exit code, output)."""
    md = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
           "-cp", TLA + ":" + os.path.join(BUILD, "java"), "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", md, "-workers", workers, "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s after %ss" % (module, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_states(out):
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def generate(module, cfg, seed, num, depth, env=None, timeout=300):
    """Walks the specification at random; returns the commands printed on the way."""
    e = {"DEPTH": depth, "MODE": "-"}
    e.update(env or {})
    rc, out = tlc(module, cfg, ["-simulate", "num=%d" % num, "-depth", str(depth + 10), "-seed", str(seed)], e, timeout)
    cmds = []
    for ln in out.splitlines():
        if ln.startswith('"{'):
            cmds.append(json.loads(ln))
    if rc != 0 or not cmds:
        raise CheckError("generator %s failed:\n%s" % (module, _tail(out)))
    return cmds


def emit_states(module, env=None, timeout=600, workers="8", heap="6g"):
    """Runs an exhaustive generator spec that prints one JSON array of commands
    per visited state; returns (list of command lists, states, transitions)."""
    m, c = spec_cfg(module)
    rc, out = tlc(m, c, [], env, timeout, heap, workers)
    hs = []
    for ln in out.splitlines():
        if ln.startswith('"['):
            hs.append([json.dumps(x, separators=(",", ":")) for x in json.loads(json.loads(ln))])
    if rc != 0 or not hs:
        raise CheckError("generator %s failed:\n%s" % (module, _tail(out)))
    gen, dist = tlc_states(out)
    return hs, dist, gen


def _tail(out, n=40):
    return "\n".join([x for x in out.splitlines() if not x.startswith(("Loading", "Parsing", "Semantic"))][-n:])


class Crash(Exception):
    def __init__(self, line, err):
        self.line, self.err = line, err


def execute(exe, cmds, workdir, name, timeout=300):
    """Runs the commands on the real code; returns the trace path.
    A crash or hang of the code under test raises Crash(1-based command)."""
    cp, tp = os.path.join(workdir, name + ".cmd"), os.path.join(workdir, name + ".trace")
    with open(cp, "w") as f:
        f.write("\n".join(cmds) + "\n")
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")
    try:
        r = subprocess.run([exe, cp, tp], capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = -14, "the run took more than %ss" % timeout
    if rc == 64:
        raise CheckError("harness error: " + err[-2000:])
    if rc != 0:
        with open(tp) as f:
            n = sum(1 for x in f if x.endswith("\n"))
        raise Crash(n + 1, "exit status %d\n%s" % (rc, err[:6000]))
    return tp


def validate(module, cfg, trace, env=None, timeout=600, stats=None):
    """Checks a recorded trace; returns the list of (line, what, detail)."""
    e = {"TRACE": trace}
    e.update(env or {})
    rc, out = tlc(module, cfg, [], e, timeout)
    if stats is not None:
        gen, dist = tlc_states(out)
        stats[0] += dist
        stats[1] += gen
    bad = []
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*"([^"]*)"', out):
        bad.append((int(m.group(1)), m.group(2), out[m.start():m.start() + 3000]))
    end = re.search(r'<<\s*"TRACE-END",\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', out)
    if bad:
        return bad
    if end and end.group(1) == end.group(2) and end.group(3) == "0" and rc == 0:
        return []
    if end and int(end.group(1)) < int(end.group(2)):
        return [(int(end.group(1)) + 1, "the specification has no step for this event", _tail(out))]
    # a recorded value outside the specification's domain makes evaluation fail
    if re.search(r"Attempted to|Evaluating|The exception was a|CHOOSE|In applying the function", out) and \
       not re.search(r"OutOfMemory|StackOverflow|Parse Error|semantic analysis failed", out):
        m = re.search(r"/\\ l = (\d+)", out[out.rfind("The behavior up to"):] if "The behavior up to" in out else "")
        ls = re.findall(r"/\\ l = (\d+)", out)
        return [(int(ls[-1]) if ls else 1, "the event lies outside the specification's domain", _tail(out))]
    raise CheckError("TLC failed on %s:\n%s" % (module, _tail(out)))


# --------------------------------------------------------------------------
def is_reset(c):
    return '"op":"reset"' in c


def history_of(cmds, line):
    """Commands from the reset before (1-based) line up to line."""
    i = line - 1
    s = i
    while s > 0 and not is_reset(cmds[s]):
        s -= 1
    return cmds[s:i + 1]


def inputs_set(cmds):
    """For each command, how many inputs its object has been given."""
    sets, r = {}, []
    for c in cmds:
        c = json.loads(c)
        if c.get("op") == "new" and "cls" in c:
            sets[c["o"]] = set()
        elif c.get("op") == "set" and "s" in c and c["o"] in sets:
            sets[c["o"]].add(c["s"])
        elif c.get("op") in ("copy", "assign") and c.get("from") in sets:
            sets[c["o"]] = set(sets[c["from"]])
        r.append(len(sets.get(c.get("o"), ())))
    return r


class Stream:
    """gen spec -> harness -> trace spec, for one seed."""

    def __init__(self, name, gen, trace, num, depth, gen_env=None, trace_env=None, chunks=1, cmds=None, timeout=400,
                 nontrivial=None):
        self.name, self.gen, self.trace = name, gen, trace
        self.num, self.depth, self.chunks = num, depth, chunks
        self.gen_env, self.trace_env = gen_env or {}, trace_env or {}
        self.cmds = cmds
        self.timeout = timeout


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def spec_cfg(m):
    """'Module' or 'Module:config'"""
    if ":" in m:
        a, b = m.split(":")
        return a + ".tla", b + ".cfg"
    return m + ".tla", m + ".cfg"


def decode(x):
    """Replaces [hi,lo] pairs that are plausible doubles by their value, for reading."""
    if isinstance(x, list):
        if len(x) == 2 and all(isinstance(v, int) for v in x) and (abs(x[0]) > 1 << 20):
            return struct.unpack(">d", struct.pack(">iI", x[0], x[1] & 0xffffffff))[0]
        return [decode(v) for v in x]
    if isinstance(x, dict):
        return {k: decode(v) for k, v in x.items()}
    return x


class Run:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.exe = build()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = self.histories = self.calls = 0
        self.models, self.samples, self.notes, self.ops = [], [], [], {}
        self.mu = threading.Lock()
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.nviol = 0
        self.pending = 0

    # ---- one stream chunk
    def chunk(self, st, k):
        seed = SEED * 1000 + k * 17 + 1
        name = "%s-%d" % (st.name, k)
        if st.cmds is not None:
            cmds = st.cmds[k]
        else:
            g, gc = spec_cfg(st.gen)
            cmds = generate(g, gc, seed, st.num, st.depth, st.gen_env, st.timeout)
        n = sum(1 for c in cmds if is_reset(c))
        stats = [0, 0]
        bad, tp = self.judge(st, cmds, name, stats)
        with self.mu:
            self.states += stats[0]
            self.transitions += stats[1]
            self.histories += n
            self.calls += len(cmds)
            for c in cmds:
                m = re.search(r'"op":"([A-Za-z0-9_]+)"', c)
                key = st.name + "/" + (m.group(1) if m else "?")
                self.ops[key] = self.ops.get(key, 0) + 1
            if len(self.samples) < 6 and tp:
                with open(tp) as f:
                    ev = [next(f, "").strip() for _ in range(14)]
                self.samples.append({"stream": name, "first_events": [clip(json.dumps(decode(json.loads(x)))) for x in ev if x]})
        if tp and os.path.exists(tp):
            os.unlink(tp)
        for line, what, detail in bad[:1]:
            with self.mu:
                if len(self.violations) + self.pending >= 2:
                    self.nviol += 1
                    continue
                self.pending += 1
            self.confirm(st, cmds, line, what, detail, name)

    def judge(self, st, cmds, name, stats=None):
        t, tc = spec_cfg(st.trace)
        try:
            tp = execute(self.exe, cmds, self.work, name, st.timeout)
        except Crash as c:
            return [(c.line, "the call crashed or did not return", c.err)], None
        return validate(t, tc, tp, st.trace_env, st.timeout, stats), tp

    def confirm(self, st, cmds, line, what, detail, name):
        hist = history_of(cmds, line)
        bad, _ = self.judge(st, hist, name + "-confirm")
        if bad:
            hist = self.shrink(st, hist, name, bad[0][1])
            bad2, _ = self.judge(st, hist, name + "-confirm")
            bad = bad2 or bad
            what, detail = bad[0][1], bad[0][2]
        else:
            bad, _ = self.judge(st, cmds, name + "-confirm")
            if not bad:
                with self.mu:
                    self.notes.append("not reproduced: %s at %s:%d" % (what, name, line))
                return
            hist = cmds
        key = signature(hist, what)
        with self.mu:
            if key in self.known:
                self.known_hit[key] = self.known[key]
                return
            self.nviol += 1
            if len(self.violations) >= 3:
                return
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": what, "signature": key, "trace_spec": st.trace,
                           "trace_env": st.trace_env, "commands": [json.loads(c) for c in hist],
                           "detail": detail.splitlines()}, f, indent=1)
            self.violations.append((what, p))

    def shrink(self, st, hist, name, what, budget=12):
        """Greedy: drop blocks of commands while the violation stays."""
        if len(hist) <= 3:
            return hist
        t0 = time.time()
        # shrinking must not leave the explored domain: an object keeps the inputs
        # it had when asked
        need = {id(c): n for c, n in zip(hist, inputs_set(hist)) if '"op":"q"' in c}

        def complete(cand):
            return all(n >= need.get(id(c), 0) for c, n in zip(cand, inputs_set(cand)))
        best, size = hist, max(1, (len(hist) - 2) // 2)
        while size >= 1 and budget > 0 and time.time() - t0 < 40:
            i = 1
            progressed = False
            while i < len(best) - 1 and budget > 0 and time.time() - t0 < 40:
                cand = best[:i] + best[min(i + size, len(best) - 1):]
                budget -= 1
                try:
                    bad, _ = self.judge(st, cand, name + "-shrink") if complete(cand) else ([], None)
                except CheckError:
                    bad = []
                if bad and bad[0][1] == what:
                    best, progressed = cand, True
                else:
                    i += size
            if not progressed:
                size //= 2
        return best

    def streams(self, sts):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(self.chunk, st, k) for st in sts for k in range(st.chunks)]
            errs = []
            for f in cf.as_completed(fs):
                x = f.exception()
                if x:
                    errs.append(x)
            if errs and not self.violations:
                raise errs[0]

    def exhaustive(self, name, gen, trace, gen_env, trace_env, timeout=600):
        """Every state of a small universe, every edit from it, on the real code."""
        hs, dist, trans = emit_states(gen, gen_env, timeout)
        with self.mu:
            self.states += dist
            self.transitions += trans
            self.models.append({"model": gen, "distinct_states": dist, "states_generated": trans,
                                "states_replayed_with_every_edit": len(hs)})
        parts = [[] for _ in range(JOBS * (1 if len(hs) < 400 else 4))]
        hs.sort(key=len, reverse=True)
        for i, h in enumerate(hs):
            parts[i % len(parts)] += h
        parts = [p for p in parts if p]
        return Stream(name, None, trace, 0, 0, {}, trace_env, chunks=len(parts), cmds=parts, timeout=timeout)

    # ---- exhaustive model checking of the specification itself
    def model(self, module, timeout=600, workers="8", heap="6g", args=(), env=None):
        m, c = spec_cfg(module)
        rc, out = tlc(m, c, list(args), env, timeout, heap, workers)
        gen, dist = tlc_states(out)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking %s failed (specification, not code):\n%s" % (module, _tail(out)))
        with self.mu:
            self.states += dist
            self.transitions += gen
            self.models.append({"model": module, "distinct_states": dist, "states_generated": gen,
                                "depth": int((re.findall(r"depth of the complete state graph search is (\d+)", out) or ["0"])[-1])})

    def finish(self, extra=None, assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.histories,
               "calls_validated_against_impl": self.calls,
               "calls_by_operation": dict(sorted(self.ops.items())),
               "models": self.models, "samples": self.samples or [{"note": "no trace recorded"}]}
        if self.notes:
            cov["notes"] = self.notes
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": self.nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k, v in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v))
        for what, p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  " + what)
        print("%s: %s; %d model states, %d histories, %d calls, %.0f s" %
              (self.pid, "VIOLATED" if self.violations else "held on everything explored",
               self.states, self.histories, self.calls, time.time() - self.t0))
        return 1 if self.violations else 0


def clip(s, n=600):
    return s if len(s) <= n else s[:n] + "..."


def signature(hist, what):
    c = json.loads(hist[-1])
    return "%s|%s" % (what, hashlib.sha256("\n".join(hist).encode()).hexdigest()[:16])


def load_known(pid):
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) signature=(\S.*?) :: (.*)", ln.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known
