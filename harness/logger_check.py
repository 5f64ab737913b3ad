"""C07: the model logger against the Logger spec."""
import io, logging, os, pathlib, random, re, sys
from harness.core import Check, Graph, Mismatch, deadline

ANSI = re.compile(r"\x1b\[[0-9;]*m")
RAW = re.compile(r"(?m)^tok(\d+)$")           # a record on the console that no configured sink has formatted
LINE = re.compile(r"<<([^|]*)\|([^|]*)\|(\d+)\|tok(\d+)>>")
FMT = {"{": "<<{simTime}|{runId}|{levelno}|{message}>>", "%": "<<%(simTime)s|%(runId)s|%(levelno)d|%(message)s>>"}
_serial = [0]


class Rig:
    """A real ModelLogger with observable sinks."""
    def __init__(self, chk, rng, rid, logger=None, timef=None):
        from pysim.sim.logger import ModelLogger, ModelLoggerConfig
        self.Cfg, self.rng = ModelLoggerConfig, rng
        _serial[0] += 1
        self.dir = chk.dir / f"log{_serial[0]}"
        self.dir.mkdir()
        self.err, self.tok, self.seen, self.seen_at = io.StringIO(), 0, set(), 0
        self.t = 0.0
        self.lg = logger or ModelLogger(f"m{_serial[0]}", **rng.choice([
            dict(time_getter=lambda: self.t, run_id=int(rid)), dict(run_id=int(rid)), {}]))
        if logger is None:
            self.lg.set_time_getter(lambda: self.t)
            self.lg.set_run_id(int(rid))
        logging.raiseExceptions = True
        # whatever reaches the root logger would reach the sinks of the embedding program
        self.rooted, rig = [], self
        class Root(logging.Handler):
            def emit(self, record):
                rig.rooted.append(record.getMessage())
        self.root = Root()
        logging.getLogger().addHandler(self.root)

    def config(self, c):
        style = self.rng.choice(["{", "%"])
        kw = dict(fmt=FMT[style], style=style, level=c["level"], use_console=c["con"],
                  colored_console=self.rng.random() < 0.5)
        if c["conlvl"]: kw["console_level"] = c["conlvl"]
        elif self.rng.random() < 0.5: kw["console_level"] = None
        if self.rng.random() < 0.3: kw["console_colors"] = {10: "", 20: "\x1b[31m", 30: "", 40: "", 50: ""}
        if c["file"]:
            kw.update(file_name=str(self.dir / (c["base"] + c["ext"])),
                      file_name_sep=c["sep"], file_name_no_run_id=c["plain"])
            if c["filelvl"]: kw["file_level"] = c["filelvl"]
        elif c["filelvl"]:
            kw["file_level"] = c["filelvl"]
        if c["sep"] == "_": kw.pop("file_name_sep", None)
        if c["plain"]: kw.pop("file_name_no_run_id", None)
        return self.Cfg(**kw)

    def collect(self):
        """New complete records in any sink."""
        got = []
        texts = [("console", ANSI.sub("", self.err.getvalue()))]
        for f in sorted(self.dir.iterdir()):
            texts.append((f.name, f.read_text()))
        for sink, txt in texts:
            n = {}
            for m in LINE.finditer(txt):
                key = (sink, m[4])
                n[key] = n.get(key, 0) + 1
                if (key, n[key]) in self.seen:
                    continue
                self.seen.add((key, n[key]))
                got.append(dict(sink=sink, tm=repr(float(m[1])), rid=m[2], lvl=int(m[3]), tok=int(m[4])))
        for m in RAW.finditer(texts[0][1]):
            if ("raw", m[1]) not in self.seen:
                self.seen.add(("raw", m[1]))
                got.append(dict(sink="console, unconfigured", tm="", rid="", lvl=-1, tok=int(m[1])))
        for x in self.rooted:
            got.append(dict(sink="root logger", tm="", rid="", lvl=-1, tok=int(re.sub(r"\D", "", x) or 0)))
        self.rooted.clear()
        return got

    def files(self):
        """The records each log file holds now."""
        return {f.name: [int(m[4]) for m in LINE.finditer(f.read_text())] for f in sorted(self.dir.iterdir())}

    def setup(self, cfg, force):
        old, sys.stderr = sys.stderr, self.err
        try:
            if cfg is None:
                self.lg.setup(force_run=True) if force else self.lg.setup(*self.rng.choice([(), (None,)]))
            elif force: self.lg.setup(self.config(cfg), force_run=True)
            else: self.lg.setup(self.config(cfg))
        finally:
            sys.stderr = old
        return self.collect()

    def log(self, lvl):
        self.tok += 1
        lg, rng = self.lg, self.rng
        std = {10: [lg.debug], 20: [lg.info], 30: [lg.warning], 40: [lg.error, lg.exception], 50: [lg.critical]}.get(lvl, [])
        fn = rng.choice(std + [lambda m, *a: lg.log(lvl, m, *a)])
        old, sys.stderr = sys.stderr, self.err
        ex = ""
        try:
            fn("tok%d", self.tok) if rng.random() < 0.5 else fn(f"tok{self.tok}")
        except Exception as e:                                       # noqa: BLE001
            ex = type(e).__name__
        finally:
            sys.stderr = old
        got = [g for g in self.collect()]
        if "Logging error" in self.err.getvalue():
            ex = ex or "LoggingError"
            self.err.truncate(0)
        for g in got:
            if g["tok"] != self.tok:
                g["sink"] += "?old"
        return got, ex

    def close(self):
        logging.getLogger().removeHandler(self.root)
        L = self.lg._logger if hasattr(self.lg, "_logger") else None
        if L is not None:
            for h in list(L.handlers):
                h.close()
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


def c07(chk: Check):
    rng = random.Random(chk.seed + 7)
    consts = "CONSTANTS Levels = {20, 30} LogLevels = {10, 20, 25, 30, 40} Plains = {TRUE, FALSE} Exts = {\".log\", \".txt\"}\n"
    consts_g = "CONSTANTS Levels = {20, 30} LogLevels = {10, 20, 25, 30, 50} Plains = {%s} Exts = {\".log\"%s}\n" % (
        ("FALSE", "") if chk.quick else ("TRUE, FALSE", ', "", ".txt"'))
    chk.model_check("LoggerMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + consts +
        "INVARIANTS OnlyConfiguredSinks NothingBelowTheLoggerLevel Monotone HighestReachesAll\n"
        "PROPERTIES SecondSetupIgnored ForcedSetupReplaces\n", "LoggerMC/properties")
    r = chk.graph("LoggerMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + consts_g +
        "VIEW View\nACTION_CONSTRAINT EmitEdge\nINVARIANT EmitState\n", "LoggerMC/graph")
    g = Graph(r.json)
    n = 0
    for start, path in g.paths(rng, max_len=40):
        rig = Rig(chk, rng, "7")
        try:
            for s, a, t in path:
                if a["op"] == "setup":
                    got = rig.setup(a["cfg"], a["force"])
                    if got: raise Mismatch("C07.nothing_written", got=got)
                else:
                    rig.t = rng.choice([0.0, 1.5, 12.25])
                    got, ex = rig.log(a["lvl"])
                    if ex: raise Mismatch("C07.no_error", error=ex, act=a)
                    if sorted(x["sink"] for x in got) != sorted(a["to"]):
                        raise Mismatch("C07.reaches_exactly_the_sinks", state=g.state[s], act=a, got=got)
                    for x in got:
                        if x["tm"] != repr(float(rig.t)) or x["rid"] != "7" or x["lvl"] != a["lvl"]:
                            raise Mismatch("C07.stamp", act=a, got=x, time=rig.t)
        except Mismatch as m:
            chk.violation(m.clause, m.data)
        except Exception as e:                                       # noqa: BLE001
            chk.violation("C07.unexpected_" + type(e).__name__, dict(error=repr(e)))
        rig.close()
        n += 1
    chk.traces += n
    chk.parts.append(dict(kind="replay", spec="LoggerMC", paths=n, edges=len(g.edges), states=len(g.state)))
    tr = [random_trace(chk, rng) for _ in range(chk.n(150, 2000))]
    tr += [sim_trace(chk, rng) for _ in range(chk.n(60, 600))]
    chk.sample(dict(recorded=tr[0]["ev"][:6]))
    chk.validate("LoggerTrace", tr)


LV = [1, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 60]


DEFAULT = dict(level=50, con=False, conlvl=0, file=False, filelvl=0, base="", ext="", sep="", plain=True)


def rcfg(rng):
    f = rng.random() < 0.6
    return dict(level=rng.choice(LV), con=rng.random() < 0.6, conlvl=rng.choice([0, 0] + LV),
                file=f, filelvl=rng.choice([0, 0] + LV) if f else 0,
                base=rng.choice(["a", "b.c", "run.log.x", "tail_", "-x-", "_.a"]) if f else "",
                ext=rng.choice([".log", "", ".txt", ".LOG"]) if f else "",
                sep=rng.choice(["_", "-", "__", "", ".", " "]) if f else "", plain=rng.random() < 0.5 if f else True)


def clean(c):
    """base names that end in a dot-part would make ext ambiguous: keep them apart"""
    if c["file"] and c["ext"] == "" and "." in c["base"]:
        c["base"] = "plain"
    return c


def random_trace(chk, rng):
    rid0 = rid = str(rng.choice([1, 7, 123456, 999999, 1000000, 12345678, 2**31 + 5, 10**15 + 3]))
    rig, ev, shift, used = Rig(chk, rng, rid), [], 0, []
    for k in range(rng.randrange(5, 25)):
        op = rng.choices(["setup", "log", "runid", "getter"], [3, 7, 0.3, 0.3])[0]
        if k == 0: op = "setup"
        if op == "setup":
            c, f = clean(rcfg(rng)), rng.random() < 0.6
            if used and rng.random() < .35:          # the file of an earlier set-up once more
                c, f = dict(c, **rng.choice(used)), rng.random() < .9
            none = rng.random() < 0.12               # no configuration: the default one, without any sink
            if none: c = dict(DEFAULT)
            try:
                got = rig.setup(None if none else c, f)
            except Exception as e:                                   # noqa: BLE001
                chk.violation("C07.unexpected_" + type(e).__name__, dict(error=repr(e), cfg=c))
                break
            ev.append(dict(op="setup", cfg=c, force=f, got=got))
            if c["file"]:
                used.append({k: c[k] for k in ("file", "base", "ext", "sep", "plain")})
        elif op == "runid":
            rid = str(rng.choice([2, 77, 555, 0, 1000002, 10**9 + 7]))
            rig.lg.set_run_id(int(rid))
            ev.append(dict(op="runid", rid=rid, got=rig.collect()))
        elif op == "getter":
            shift = rng.choice([0, 5, 250])
            rig.lg.set_time_getter(lambda n=shift: rig.t + n)
            ev.append(dict(op="getter", got=rig.collect()))
        else:
            rig.t = rng.choice([0.0, 0.125, 3.5, 1000.0, 123456.789, 1.2345678e-5, 1 / 3, 7e6 + 1e-7])
            lvl = rng.choice(LV)
            got, ex = rig.log(lvl)
            ev.append(dict(op="log", lvl=lvl, tm=repr(float(rig.t + shift)), got=got, ex=ex, tok=rig.tok, files=rig.files()))
    rig.close()
    return dict(rid=rid0, ev=ev)


def sim_trace(chk, rng):
    """Logging from inside a simulation: records carry the model time."""
    from pysim.sim import build_simulation, run_simulation
    import pysim.sim.simulator as SM
    from harness import kernel_drv as D
    c = clean(rcfg(rng))
    ev = []
    box = {}
    rid = None
    delays = [rng.choice([0, 0.5, 1.25, 3]) for _ in range(rng.randrange(1, 6))]

    def note(sim):
        rig = box["rig"]
        lvl = rng.choice(LV)
        got, ex = rig.log(lvl)
        ev.append(dict(op="log", lvl=lvl, tm=repr(float(sim.time)), got=got, ex=ex, tok=rig.tok, files=rig.files()))
        if rng.random() < 0.2:
            c2 = clean(rcfg(rng))
            ev.append(dict(op="setup", cfg=c2, force=False, got=rig.setup(c2, False)))

    def step(sim, n):
        note(sim)
        if n < len(delays):
            sim.schedule(delays[n], step, (n + 1,))
    def init(sim):
        rig = box["rig"]
        rig.lg = sim.logger
        sim.logger.set_run_id(4242)
        note(sim)
        sim.schedule(delays[0], step, (1,))

    def fin(sim):
        note(sim)
    rig = Rig(chk, rng, "4242")
    box["rig"] = rig
    old, sys.stderr = sys.stderr, rig.err
    c["plain"] = True           # the run id is only known once the kernel exists
    try:
        gen = build_simulation(f"sim{_serial[0]}", init=init, fin=fin, logger_config=rig.config(c))
    finally:
        sys.stderr = old
    ev.append(dict(op="setup", cfg=c, force=False, got=[]))
    with deadline(20):
        run_simulation(gen)
    rig.close()
    return dict(rid="4242", ev=ev)
