"""Common machinery: scratch space, TLC, verdicts, evidence."""
import json, os, pathlib, re, shutil, signal, subprocess, sys, tempfile, time as _time

ROOT = pathlib.Path(__file__).resolve().parent.parent
SPECS = ROOT / "specs"
REPO = os.environ.get("VERIF_REPO", "/repo")
_now = _time.monotonic          # bound before any fake clock is installed
JAR = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")


class MachineryError(Exception):
    """Something is wrong with the check itself (not with the code)."""


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        g, d = m[-1] if m else ("0", "0")
        self.generated = int(g.replace(",", ""))
        self.distinct = int(d.replace(",", ""))
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0
        self.json = []
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    self.json.append(json.loads(json.loads(line)))
                except json.JSONDecodeError:
                    raise MachineryError("unparsable TLC line: " + line[:200])

    def error_text(self):
        i = self.out.find("Error:")
        return self.out[i:i + 1500] if i >= 0 else self.out[-1500:]


class Check:
    def __init__(self, pid):
        global CURRENT
        self.pid = CURRENT = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.quick = self.tier == "quick"
        base = ROOT / "work"
        base.mkdir(exist_ok=True)
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix=pid + "-", dir=base))
        self.t0 = _now()
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.viol, self.known = [], []
        kf = ROOT / "known_findings.json"
        self.findings = json.load(open(kf))["findings"] if kf.exists() else []
        self.exhaustive = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=4, extra=(), timeout=800,
            expect_ok=True, mem="4g"):
        d = pathlib.Path(tempfile.mkdtemp(prefix="tlc-", dir=self.dir))
        for f in SPECS.glob("*.tla"):
            shutil.copy(f, d)
        (d / f"{module}.cfg").write_text(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss16m",
               "-XX:ParallelGCThreads=2", "-cp", JAR,
               "tlc2.TLC", "-workers", str(workers), "-metadir", str(d / "meta"),
               "-noGenerateSpecTE", *extra, f"{module}.tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t = _now()
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True,
                           timeout=timeout)
        r = TlcResult(p.stdout, p.returncode, _now() - t)
        if expect_ok and not r.ok:
            raise MachineryError(f"TLC failed on {module} (rc={p.returncode}):\n"
                                 + r.error_text() + p.stderr[-500:])
        shutil.rmtree(d, ignore_errors=True)
        return r

    def model_check(self, module, cfg, label=None, **kw):
        """Exhaustive check of the specification; a failure is an error of the spec."""
        r = self.tlc(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append(dict(kind="model_check", spec=label or module,
            distinct_states=r.distinct, transitions=r.generated, depth=r.depth,
            wall_s=round(r.wall, 1)))
        return r

    def graph(self, module, cfg, label=None, **kw):
        """State graph as edges printed by the spec's EmitEdge action constraint."""
        kw["workers"] = 1
        r = self.model_check(module, cfg, label, **kw)
        return r

    def validate(self, module, traces, consts="", env=None, label=None,
                 workers=4, lines=None, prefixes=None):
        """TLC decides whether recorded traces are behaviours of the spec.

        traces: list of dicts with at least "ev" (list of event dicts)."""
        if not traces:
            return []
        f = self.dir / f"traces-{module}-{len(self.parts)}.ndjson"
        with open(f, "w") as fh:
            for t in traces:
                fh.write(json.dumps(t) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + consts
        e = dict(TRACE_FILE=str(f))
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, workers=workers, expect_ok=False)
        total = sum(len(t["ev"]) for t in traces) + len(traces)
        mine = any(isinstance(v, dict) and str(v.get("viol", "")).startswith(self.pid + ".") for v in r.json)
        if not r.ok and not mine:       # after a violation the recorded state may leave the domain of the operators
            raise MachineryError(f"TLC failed on {module} (rc={r.rc}):\n" + r.error_text())
        if r.ok and r.distinct != total:
            raise MachineryError(f"{module}: {r.distinct} states for {total} "
                                 "trace positions: traces not fully consumed")
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(traces)
        self.parts.append(dict(kind="trace_validation", spec=label or module,
            traces=len(traces), events=total - len(traces), wall_s=round(r.wall, 1)))
        out = []
        for v in r.json:
            if isinstance(v, dict) and "viol" in v:
                out.append(v)
        out.sort(key=lambda v: (v["i"], v["l"]))
        seen = set()
        for v in out:
            c = v["viol"]
            if not c.startswith(self.pid + ".") and not (prefixes and c.split(".")[0] in prefixes):
                continue
            key = c
            if key in seen:
                continue
            seen.add(key)
            t = traces[v["i"] - 1]
            lo = max(0, v["l"] - 4)
            self.violation(c, dict(clause=c, spec=module, line=v["l"],
                header={k: x for k, x in t.items() if k != "ev"},
                events=t["ev"][lo:v["l"]], info=v.get("info")))
        os.unlink(f)
        return out

    # -- verdicts ----------------------------------------------------------
    def violation(self, what, data=None):
        for k in self.findings:
            if k["property"] == self.pid and re.fullmatch(k["match"], what):
                if what not in [x for x, _ in self.known]:
                    self.known.append((what, k))
                return
        if len(self.viol) < 50:
            self.viol.append((what, data))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        replays = ROOT / "work" / "replays"
        for w, k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['id']}: {k['what']}")
        rc = 0
        if self.viol:
            rc = 1
            replays.mkdir(parents=True, exist_ok=True)
            for i, (what, data) in enumerate(self.viol[:5]):
                p = replays / f"{self.pid}-{os.getpid()}-{i}.json"
                p.write_text(json.dumps(dict(property=self.pid, what=what,
                    tier=self.tier, seed=self.seed, replay=f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} bash check.sh {self.pid}",
                    data=data), indent=1, default=str, ensure_ascii=False))
                print(f"violated: {what}")
                print(json.dumps(data, default=str, ensure_ascii=False)[:1500])
                print(f"VIOLATION property={self.pid} replay={p}")
        cov = dict(states=self.states, transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            samples=self.samples or ["(none)"], parts=self.parts)
        if self.exhaustive:
            cov["exhaustive_parts"] = self.exhaustive
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
            level="model_checking", coverage=cov, assumptions=self.assumptions,
            wall_s=round(_now() - self.t0, 2), violations=len(self.viol))
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{self.pid}.json").write_text(
            json.dumps(ev, indent=1, default=str, ensure_ascii=False))
        shutil.rmtree(self.dir, ignore_errors=True)
        if rc == 0:
            print(f"OK property={self.pid} tier={self.tier} states={self.states} "
                  f"transitions={self.transitions} traces={self.traces} "
                  f"wall={ev['wall_s']}s")
        return rc


class Mismatch(Exception):
    """The code did something the specification does not allow."""
    def __init__(self, clause, **data):
        super().__init__(clause)
        self.clause, self.data = clause, data


class deadline:
    """A run of the code under test that does not end in time is a mismatch."""
    def __init__(self, seconds, clause="terminates"):
        self.s, self.clause = seconds, clause

    def __enter__(self):
        def fire(*_):
            raise Mismatch(CURRENT + "." + self.clause, seconds=self.s)
        self.old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


CURRENT = "C00"


# -- state graph walking ------------------------------------------------------
def key(s):
    return json.dumps(s, sort_keys=True)


class Graph:
    """Edges as printed by EmitEdge: {"s": state, "a": action, "t": state}."""
    def __init__(self, records, drop=()):
        self.edges, self.out, self.init = [], {}, []
        self.state = {}
        for r in records:
            if "s0" in r:
                k = key(r["s0"]); self.state[k] = r["s0"]
                if k not in self.init:
                    self.init.append(k)
        seen = set()
        for r in records:
            if "a" not in r or "s" not in r:
                continue
            s, t = key(r["s"]), key(r["t"])
            self.state[s], self.state[t] = r["s"], r["t"]
            e = (s, key(r["a"]), t)
            if e in seen:
                continue
            seen.add(e)
            i = len(self.edges)
            self.edges.append((s, r["a"], t))
            self.out.setdefault(s, []).append(i)

    def paths(self, rng, is_end=lambda s: False, max_len=60):
        """Edge-covering set of paths from initial states."""
        from collections import deque
        par, dq = {}, deque()
        for k in self.init:
            par[k] = None; dq.append(k)
        while dq:
            k = dq.popleft()
            for i in self.out.get(k, ()):
                t = self.edges[i][2]
                if t not in par:
                    par[t] = i; dq.append(t)
        # distance to an end state
        rev = {}
        for i, (s, _, t) in enumerate(self.edges):
            rev.setdefault(t, []).append(i)
        nxt, dq = {}, deque()
        for k in self.state:
            if is_end(self.state[k]):
                nxt[k] = None; dq.append(k)
        while dq:
            k = dq.popleft()
            for i in rev.get(k, ()):
                s = self.edges[i][0]
                if s not in nxt:
                    nxt[s] = i; dq.append(s)
        left = [i for i in range(len(self.edges)) if self.edges[i][0] in par]
        covered = [False] * len(self.edges)
        rng.shuffle(left)
        for e in left:
            if covered[e]:
                continue
            p, k = [], self.edges[e][0]
            while par[k] is not None:
                p.append(par[k]); k = self.edges[par[k]][0]
            start = k
            p.reverse(); p.append(e)
            k = self.edges[e][2]
            while len(p) < max_len:
                o = [i for i in self.out.get(k, ()) if not covered[i]]
                if not o:
                    break
                i = rng.choice(o)
                covered[i] = True
                p.append(i); k = self.edges[i][2]
            while nxt.get(k) is not None:
                p.append(nxt[k]); k = self.edges[nxt[k]][2]
            for i in p:
                covered[i] = True
            yield start, [self.edges[i] for i in p]
