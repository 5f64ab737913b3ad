"""C30: what is reported and saved of the results, against Reports."""
import ast, contextlib, importlib, io, json, multiprocessing, os, random, re, shutil, tempfile, time
from harness.core import Check
from harness.cli_check import COLS, N, lit, tables

NUM = r"(-?[\d.]+(?:e[-+]?\d+)?)"


def num(x):
    """A result as text, the same for every way to write the number."""
    try:
        return repr(float(x))
    except (TypeError, ValueError):
        return "?" + str(x)


def par(x):
    """A parameter as text."""
    if isinstance(x, float) and x == int(x):
        x = int(x)
    if isinstance(x, (list, tuple)):
        return json.dumps([par(y) for y in x])
    return x if isinstance(x, str) and not isinstance(lit(x), (int, float)) else par(lit(x)) if isinstance(x, str) else json.dumps(x)


def q64(x):
    return int(x * 64) if x * 64 == int(x * 64) and abs(x) < 2**24 else -10**9


def milli(x):
    return max(-2 * 10**9, min(2 * 10**9, round(float(x) * 1000)))


def content(kind, path, vary, many):
    try:
        with open(path) as f:
            t = f.read().strip().split("\n")
        given, res = (json.loads(x.split(": ", 1)[1]) for x in t)
        vals = [N(x) for x in given.pop(vary)] if vary else []
        if kind == "tt":
            out = [[q64(x)] for x in res]
        else:
            cols = [res[c] for c in COLS[kind]]
            assert set(res) == set(COLS[kind]) and (not many or len({len(c) for c in cols}) == 1)
            out = [[num(x) for x in r] for r in zip(*cols)] if many else [[num(x) for x in cols]]
        return dict(params={k: par(v) for k, v in given.items()}, vals=vals, res=out)
    except (OSError, ValueError, IndexError, KeyError, TypeError, AssertionError, AttributeError) as e:
        return dict(params={"unreadable": repr(e)[:80]}, vals=[], res=[])


def files(kind, owners, vary, many):
    """Every text file in the working folder; owners: what was varied when it was first seen."""
    out = []
    for d, _, names in os.walk("."):
        for n in sorted(names):
            p = os.path.join(d, n)
            if p.endswith(".png"):
                continue
            o = owners.get(p)
            raw = open(p, errors="replace").read()
            if o is None or o[0] != raw:
                owners[p] = o = (raw, content(kind, p, vary, many))
            out.append(dict(name=p, content=o[1]))
    return sorted(out, key=lambda x: x["name"])


def shown(kind, e, text, vary, many, names):
    """What was printed."""
    if kind == "tt":
        m = re.findall(r"Среднее время до поглощения:\s*(.*)", text)[-1]
        v = lit(m.strip())
        v = list(v) if isinstance(v, (list, tuple)) else [v]
        e["meanm"] = [milli(x) for x in v]
        e["shown"] = [[q64(x)] for x in v]
        if not many:
            e["total"] = milli(re.findall(r"Суммарное время:\s*" + NUM, text)[-1])
        return
    rows = [r for t in tables(text) for r in t]
    d = {r[0]: r[1] for r in rows if len(r) == 2}
    if kind == "pp" and not many:
        pats = dict(avg_interval="Средний интервал", avg_delay="Средняя длительность", miss_rate="Вероятность потери сообщения")
        e["shown"] = [[num(re.search(pats[c] + r"[^=\n]*= *" + NUM, text)[1]) for c in COLS["pp"]]]
        m = re.search(r"Параметры:\s*(\{.*\})", text)
        e["static"] = {k: par(v) for k, v in ast.literal_eval(m[1]).items() if k in names}
    elif kind == "pp":
        e["shown"] = [[num(x) for x in r] for r in zip(*[lit(d[c]) for c in COLS["pp"]], strict=True)]
        e["listed"] = [N(x) for x in lit(d[vary])]
        e["static"] = {n: par(d[n]) for n in names if n != vary and n in d}
    elif not many:
        e["shown"] = [[num(d[c]) for c in COLS["rf"]]]
        e["took"] = milli(re.findall(r"Время выполнения симуляции\D*" + NUM, text)[-1])
    else:
        h = next(k for k, r in enumerate(rows) if r[0] == vary and set(COLS["rf"]) <= set(r))
        ix = [rows[h].index(c) for c in COLS["rf"]]
        rs = [r for r in rows[h + 1:] if len(r) == len(rows[h])]
        e["listed"] = [N(r[0]) for r in rs]
        e["shown"] = [[num(r[k]) for k in ix] for r in rs]
        e["static"] = {n: par(d[n]) for n in names if n != vary and n in d}
        e["took"] = milli(re.findall(r"Среднее время одной симуляции\D*" + NUM, text)[-1])


def call(kind, given, vary, results, save, plot, was, exact=True):
    """One call of result_processing in the working folder; what was given, shown, drawn and saved."""
    import matplotlib.axes, matplotlib.figure
    import matplotlib.pyplot as plt
    proc = importlib.import_module(dict(pp="pysim.models.pingpong.processing", tt="pysim.models.tag_time.processing", rf="pysim.models.rfid.processing")[kind])
    many = isinstance(results, list)
    e = dict(op="report", kind=kind, save=save, many=many, plot=plot if kind == "tt" else kind == "rf", exact=exact, sets=kind == "tt",
             vals=[N(x) for x in given[vary]] if vary else [], params={k: par(v) for k, v in given.items() if k != vary},
             n=given.get("max_transmisions", 0) if kind == "tt" else 0, failed=False, error="", listed=[], shown=[], static={}, plots=[], res=[],
             meanm=[], total=0, took=0, times=[], whole=[], wholem=[], drawn=False, files=[])
    rs = results if many else [results]
    if kind == "pp":
        e["res"] = [[num(getattr(r, c)) for c in COLS["pp"]] for r in rs]
    elif kind == "rf":
        e["res"] = [[num(r[0][c]) for c in COLS["rf"]] for r in rs]
        e["times"] = [milli(r[1]) for r in rs]
    else:
        e["whole"] = [q64(r.sim_time) for r in rs]
        e["wholem"] = [milli(r.sim_time) for r in rs]
    plots, drawn = [], []
    Ax, Fig = matplotlib.axes.Axes, matplotlib.figure.Figure
    old = Ax.plot, Fig.savefig

    def axplot(self, *a, **k):
        if len(a) >= 2:
            plots.append((list(a[0]), list(a[1])))
        return old[0](self, *a, **k)

    def savefig(self, name, *a, **k):
        drawn.append(os.path.isdir(os.path.dirname(os.path.abspath(name))))
    Ax.plot, Fig.savefig = axplot, savefig
    out = io.StringIO()
    names = [n for n in given if n not in ("verbose",)]
    try:
        with contextlib.redirect_stdout(out):
            if kind == "tt":
                proc.result_processing(dict(given), results, save_res=save, plot_res=plot)
            else:
                proc.result_processing(dict(given), results, vary, save_results=save)
    except Exception as x:                                           # noqa: BLE001
        e.update(failed=True, error=repr(x))
    finally:
        Ax.plot, Fig.savefig = old
        plt.close("all")
    e["files"] = files(kind, was, vary, many)
    e["drawn"] = drawn != [] and all(drawn)
    if not e["failed"]:
        try:
            shown(kind, e, out.getvalue(), vary, many, names)
        except (KeyError, IndexError, StopIteration, ValueError, TypeError) as x:
            e["listed"] = []
            e["shown"] = []
            e["error"] = "unreadable report " + repr(x)
        for x, y in plots:
            e["plots"].append(dict(x=[int(v) if kind == "tt" else N(v) for v in x], y=[q64(v) if kind == "tt" else num(v) for v in y]))
    return e


def prob(rng):
    return rng.choice([0.0, 1.0, rng.random(), rng.random(), rng.randrange(65) / 64, rng.random() * 1e-3, 1e-7 * rng.randrange(1, 99)])


def request(rng, kind, shape, again=None):
    """Parameters and made-up results for a list of values of the given shape (equal numbers: equal values)."""
    n = len(shape)
    if kind == "tt":
        from pysim.sim.simulator import ExecutionStats
        import inspect
        m = again[0]["max_transmisions"] if again else rng.choice([1, 2, 3, 7, rng.randrange(1, 3000)])

        def stats():
            f = {p: 0 for p in inspect.signature(ExecutionStats).parameters}
            f.update(sim_time=m * rng.randrange(1, 2000) / 64, num_events_processed=rng.randrange(1, 999))
            return ExecutionStats(**f)
        pt = lambda: (tuple(rng.randrange(1, 9) / 8 for _ in range(4)), tuple(rng.randrange(1, 50) / 8 for _ in range(4)))
        kinds = {k: pt() for k in shape} or {0: pt()}
        given = dict(probability=tuple(kinds[k][0] for k in shape), processing_time=tuple(kinds[k][1] for k in shape),
                     max_transmisions=m, chunks_number=rng.randrange(1, 12), scenario=rng.randrange(1, 4))
        if again:
            return again[0], None, [stats() for _ in shape] if n else stats()
        if not n:
            given.update(probability=kinds[0][0], processing_time=kinds[0][1])
        return given, None, [stats() for _ in shape] if n else stats()
    f = lambda lo, hi: rng.choice([float(rng.randrange(lo, hi)), rng.randrange(lo * 8, hi * 8) / 8, round(rng.uniform(lo, hi), rng.randrange(1, 5))])
    if kind == "pp":
        from pysim.models.pingpong.objects import Result
        gen = dict(interval=lambda: f(1, 60), channel_delay=lambda: f(0, 30), service_delay=lambda: f(0, 30), loss_prob=lambda: round(rng.random(), 4),
                   max_pings=lambda: rng.choice([rng.randrange(1, 10), rng.randrange(10, 2000)]))
        res = lambda: Result(avg_interval=rng.random() * rng.choice([1, 100, 1e4]), avg_delay=rng.random() * 50, miss_rate=prob(rng))
        free = list(gen)
    else:
        gen = dict(speed=lambda: rng.choice([rng.randrange(1, 200), f(1, 300)]), encoding=lambda: rng.choice(["1", "2", "4", "8", "FM0", "M4"]),
                   tari=lambda: rng.choice(["6.25", "12.5", "18.75", "25"]), tid_word_size=lambda: rng.randrange(1, 70), altitude=lambda: f(1, 12),
                   reader_offset=lambda: f(-6, 9), tag_offset=lambda: f(-6, 9), power=lambda: rng.choice([rng.randrange(-9, 40), f(-9, 40)]),
                   num_tags=lambda: rng.randrange(1, 300), verbose=lambda: False, useadjust=lambda: rng.random() < .5, delta=lambda: rng.randrange(1, 11) / 10)
        res = lambda: (dict(rounds_per_tag=rng.choice([0, 0.0, rng.random() * 20, float(rng.randrange(9))]), inventory_prob=prob(rng), read_tid_prob=prob(rng)),
                       rng.choice([rng.random() * 9, rng.random() / 100, float(rng.randrange(1, 400)), 1.5, 1.5]))
        free = ["speed", "tid_word_size", "altitude", "reader_offset", "tag_offset", "power"]
    if again:
        return *again, [res() for _ in set(shape)] if n else res()
    given = {k: g() for k, g in gen.items()}
    if not n:
        return given, None, res()
    vary = rng.choice(free)
    vals = {}
    for k in sorted(set(shape)):
        while k not in vals:
            x = gen[vary]()
            if N(x) not in {N(y) for y in vals.values()}:
                vals[k] = x
    given[vary] = tuple(vals[k] for k in shape)
    return given, vary, [res() for _ in vals]


def real(rng, kind):
    """Parameters of a small command and the results the model really gave for it."""
    from harness import cli_check as c
    import click
    mod = importlib.import_module(dict(pp="pysim.models.pingpong.cli", tt="pysim.models.tag_time.cli", rf="pysim.models.rfid.cli")[kind])
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == "tt":
            g = {k: tuple(v) if k in ("probability", "processing_time") else v[0] for k, v in c.tt_given(rng, 3).items()}
            return g, None, mod.run_multiple_simulation(dict(g, jobs=2))
        g = dict(pp=c.pp_given, rf=c.rf_given)[kind](rng)
        g = {k: v[0] for k, v in g.items()}
        if kind == "rf":
            g.update(verbose=False, useadjust=bool(g["useadjust"]))
        vary = rng.choice(list(c.VARY[kind]))
        g[vary] = tuple(c.distinct(rng, c.VARY[kind][vary], 3))
        if kind == "pp":
            return g, vary, mod.run_multiple_simulation(vary, **dict(g, jobs=2))
        return g, vary, mod.prepare_multiple_simulation(vary, **dict(g, jobs=2))


def history(a):
    """One working folder: requests (shape, save, second) one after another."""
    seed, kind, asked, folder, real_one = a
    rng = random.Random(str(seed))
    d = tempfile.mkdtemp(dir=folder)
    old = os.getcwd()
    os.chdir(d)
    was, ev, sec, seen = {}, [], 1, None
    try:
        for r in asked:
            while sec < r["sec"]:
                t = time.time()
                time.sleep(1.02 - t % 1)
                ev.append(dict(op="second"))
                sec += 1
            plot = rng.random() < .6
            if real_one:
                g, v, res = real(rng, kind)
            else:                                   # at times the same command once more, with results of its own
                shape, again = seen if seen and rng.random() < .6 else (r["shape"], None)
                g, v, res = request(rng, kind, shape, again)
                seen = shape, (g, v)
            ev.append(call(kind, g, v, res, r["save"], plot, was, exact=not (real_one and kind == "tt")))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    return dict(kind=kind, real=real_one, ev=ev)


def c30(chk: Check):
    rng = random.Random(chk.seed * 31 + 30)
    inv = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS RowsRight Kept NothingElse Housed EmitHistory\n"
    n = chk.n(2, 3)
    chk.model_check("ReportMC", inv + f"CONSTANTS Lists <- MCLists\nMaxSec = {n}\nMaxAsked = {n}\nEmit = FALSE\n", "ReportMC/requests and seconds", workers=8)
    g = chk.graph("ReportMC", inv + "CONSTANTS Lists <- FewLists\nMaxSec = 3\nMaxAsked = 3\nEmit = TRUE\n", "ReportMC/histories")
    hs = [x["asked"] for x in g.json if "asked" in x]
    groups = {}
    for h in hs:                                    # all patterns of saving and seconds
        groups.setdefault(tuple((r["save"], r["sec"]) for r in h), []).append(h)
    jobs = []
    kinds = ("pp", "tt", "rf")
    work = tempfile.mkdtemp(dir=chk.dir)
    for j, (pat, hh) in enumerate(sorted(groups.items())):
        for k, kind in enumerate(kinds):
            if chk.quick and (j + k) % 3 and sum(s for s, _ in pat) < 2:
                continue
            hh2 = [h for h in hh if all(r["sets"] == (kind == "tt") for r in h)] or hh
            for h in rng.sample(hh2, min(len(hh2), chk.n(1, 4))):
                jobs.append((rng.random(), kind, [dict(shape=r["vals"], save=r["save"], sec=r["sec"]) for r in h], work, False))
    for kind in kinds:
        for _ in range(chk.n(60, 600)):             # one request each: random lists
            n = rng.choice([0, 2, 2, 3, 3, 4, 7, 12, 30])
            shape = [rng.randrange(1, n + 2) for _ in range(n)]
            if n and rng.random() < .2:
                shape = [1] * n
            if n and rng.random() < .3:
                shape = sorted(shape, reverse=True)
            jobs.append((rng.random(), kind, [dict(shape=shape, save=rng.random() < .7, sec=1)], work, False))
        for _ in range(chk.n(1, 6)):
            jobs.append((rng.random(), kind, [dict(shape=[], save=True, sec=1)], work, True))
    real_jobs = [j for j in jobs if j[4]]
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot                        # noqa: F401  loaded once, before the workers
    for m in ("pingpong", "tag_time", "rfid"):
        importlib.import_module(f"pysim.models.{m}.processing")
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(8) as pool:
        tr = pool.map(history, [j for j in jobs if not j[4]], chunksize=2)
    tr += [history(j) for j in real_jobs]
    chk.parts.append(dict(kind="reports of the real models", histories=len(groups), calls=sum(1 for t in tr for e in t["ev"] if e["op"] == "report"),
                          saved=sum(1 for t in tr for e in t["ev"] if e.get("save"))))
    chk.sample(dict(trace=tr[0]))
    chk.validate("ReportTrace", tr)
