"""C26: the command lines of the models, run for real, against Parallel."""
import ast, contextlib, fcntl, json, multiprocessing, os, random, shutil, sys, tempfile, time
from harness.core import Check, deadline
from harness.observe import after_events

N = lambda x: int(round(float(x) * 10**6))


coarse = lambda r: " ".join(f"{float(x):.5g}" for x in r)


def everywhere(old, new):
    """Replaces a function in every loaded module of the code under test."""
    hit = []
    for name, m in list(sys.modules.items()):
        if name.startswith("pysim"):
            for k, v in list(vars(m).items()):
                if v is old:
                    setattr(m, k, new)
                    hit.append((m, k))
    return hit


def log_line(path, rec):
    with open(path, "a+") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write(json.dumps(rec) + "\n")
        f.flush()
        f.seek(0)
        return sum(1 for _ in f)


def lines(path):
    try:
        with open(path) as f:
            return [json.loads(x) for x in f]
    except FileNotFoundError:
        return []


# what is in effect in a model just before it runs, and its results
def pp_params(m):
    return dict(interval=N(m.client.interval), channel_delay=N(m.channel.delay), service_delay=N(m.server.delay),
                loss_prob=N(m.server.loss_prob), max_pings=int(m.client.max_pings))


def pp_result(ret):
    r = ret[2]
    return [float(r.avg_interval), float(r.avg_delay), float(r.miss_rate)]


def tt_params(m):
    st = [m.choose_state(k) for k in range(4)]
    sec = st[3] if isinstance(st[3], list) else [st[3]]
    assert all(s.probability == sec[0].probability and s.interval == sec[0].interval for s in sec)
    st = st[:3] + sec[:1]
    return dict(probability=[N(s.probability) for s in st], processing_time=[N(s.interval) for s in st],
                max_transmisions=int(st[0].max_transmisions), chunks_number=int(m.config.chunks_number), scenario=int(m.scenario))


def tt_result(ret):
    return [float(ret[0].sim_time), ret[0].num_events_processed]


def rf_params(m):
    r, g, a = m.reader, m.generators[0], m.reader.antenna
    return dict(speed=N(round(g.velocity * 3.6, 6)), tid_word_size=int(r.read_tid_words_num), altitude=N(a.pos[2]), reader_offset=N(a.pos[0]),
                tag_offset=N(g.pos0[0]), power=N(r.max_power), encoding=dict(FM0=1, M2=2, M4=4, M8=8)[r.tag_encoding.name],
                tari=N(r.tari * 1e6), num_tags=int(m.max_tags_num), useadjust=int(bool(r.use_query_adjust)), delta=N(r.adjust_delta))


def rf_result(ret):
    s = ret[1].statistics
    return [float(s.read_tid_probability()), float(s.inventory_probability()), float(s.average_rounds_per_tag())]


def tables(text):
    """The tables of the output: lists of rows of cells."""
    out, cur = [], []
    for line in text.splitlines():
        if line.startswith("|"):
            cur.append([c.strip() for c in line.strip("|").split("|")])
        elif not line.startswith("+") and cur:
            out.append(cur)
            cur = []
    return out + ([cur] if cur else [])


def lit(x):
    try:
        return ast.literal_eval(x)
    except (ValueError, SyntaxError):
        return x


def scalar(x):
    x = lit(x) if isinstance(x, str) else x
    return x[0] if isinstance(x, (list, tuple)) and len(x) == 1 else x


COLS = dict(pp=["avg_interval", "avg_delay", "miss_rate"], rf=["read_tid_prob", "inventory_prob", "rounds_per_tag"])


def report(kind, given, text, ret, vary):
    """(listed values, results, static parameters) of a printed report."""
    static, listed, res = {}, [], []
    if kind == "tt":
        out = ret if isinstance(ret, list) else [ret] if ret is not None else []
        return [], [tt_result([x]) for x in out], {}
    rows = [r for t in tables(text) for r in t]
    d = {r[0]: r[1] for r in rows if len(r) == 2}
    num = lambda n, v: int(scalar(v)) if n in ("max_pings", "tid_word_size", "encoding", "num_tags") else N(scalar(v))
    if kind == "pp" and vary is None:
        import re
        m = {k: re.search(p + r"\D*?= *([-\d.e]+)", text) for k, p in
             dict(avg_interval="Средний интервал", avg_delay="Средняя длительность", miss_rate="Вероятность потери сообщения").items()}
        return [], [[float(m[c][1]) for c in COLS["pp"]]], {}
    if kind == "pp":
        cols = [lit(d[c]) for c in COLS["pp"]]
        res = [list(map(float, r)) for r in zip(*cols)]
        v = lit(d[vary])
        listed = [N(x) if vary != "max_pings" else x for x in (v if isinstance(v, (list, tuple)) else [v])]
        static = {n: num(n, d[n]) for n in given if n != vary and n in d}
        return listed, res, static
    if vary is None:
        return [], [[float(d[c]) for c in COLS["rf"]]], {}
    head = next(k for k, r in enumerate(rows) if r[0] == vary and set(COLS["rf"]) <= set(r))
    ix = [rows[head].index(c) for c in COLS["rf"]]
    for r in rows[head + 1:]:
        if len(r) != len(rows[head]):
            break
        listed.append(int(r[0]) if vary == "tid_word_size" else N(r[0]))
        res.append([float(r[k]) for k in ix])
    return listed, res, {n: num(n, d[n]) for n in given if n != vary and n in d}


def command(kind, given):
    o = dict(pp=dict(interval="-i", channel_delay="-ch", service_delay="-s", loss_prob="-l", max_pings="-mp"),
             tt=dict(probability="-p", processing_time="-t", max_transmisions="-m", chunks_number="-cn", scenario="-s"),
             rf=dict(speed="-s", encoding="-m", tari="-t", tid_word_size="-ws", altitude="-a", reader_offset="-ro",
                     tag_offset="-to", power="-p", num_tags="-n", useadjust="-ua", delta="-d"))[kind]
    out = []
    for n, vs in given.items():
        for v in vs:
            if n == "useadjust":
                out += ["-ua"] if v else []
            else:
                out += [o[n]] + [str(x) for x in (v if isinstance(v, (list, tuple)) else [v])]
    return out


WHOLE = ("max_pings", "tid_word_size", "encoding", "num_tags", "useadjust", "max_transmisions", "chunks_number", "scenario")


def coded(given):
    c = lambda n, v: [N(x) for x in v] if isinstance(v, (tuple, list)) else int(v) if n in WHOLE else N(v)
    return {n: [c(n, v) for v in vs] for n, vs in given.items()}


def run_cli(chk, kind, given, workers, order=None, rng=random):
    """One command line run for real; order: wished order of finishing (positions among the jobs)."""
    from click.testing import CliRunner
    import importlib
    import matplotlib.axes, matplotlib.figure
    import pysim.sim.simulator as core
    cli = importlib.import_module(dict(pp="pysim.models.pingpong.cli", tt="pysim.models.tag_time.cli", rf="pysim.models.rfid.cli")[kind])
    params, result = dict(pp=(pp_params, pp_result), tt=(tt_params, tt_result), rf=(rf_params, rf_result))[kind]
    g = coded(given)
    vary = next((n for n, v in g.items() if len(v) > 1), None)
    d = tempfile.mkdtemp(dir=chk.dir)
    log = os.path.join(d, "log")
    keys = None
    if order:
        keys = [tuple(v) if isinstance(v, list) else v for v in (g["probability"] if kind == "tt" else sorted(set(g[vary])))]
        rank = {keys[k - 1]: j for j, k in enumerate(order)}
    seed = rng.randrange(10**9)
    pos = {}

    def first(sim, fn, args):
        if id(sim) not in pos:
            pos[id(sim)] = (sim, params(sim.context))
            log_line(log + ".started", 1)
            random.seed(str((seed, pos[id(sim)][1])))
            import numpy as np
            np.random.seed(abs(hash(str((seed, str(pos[id(sim)][1]))))) % 2**31)
    real = core.run_simulation

    def run_simulation(sim):
        pos.clear()
        ret = real(sim)
        p = next(iter(pos.values()))[1] if pos else None
        if keys:
            v = p["probability" if kind == "tt" else vary]
            r = rank.get(tuple(v) if isinstance(v, list) else v, 0)
            t = time.monotonic() + 0.5
            while len(lines(log)) < r and time.monotonic() < t:
                time.sleep(0.004)
        elif rng is not random:
            time.sleep(random.random() * 0.03)
        log_line(log, dict(p=p, r=coarse(result(ret)), w=os.getpid()))
        return ret
    plots = []
    Ax, Fig = matplotlib.axes.Axes, matplotlib.figure.Figure
    old = Ax.plot, Fig.savefig, multiprocessing.cpu_count, os.cpu_count, os.getcwd()

    def plot(self, *a, **k):
        if len(a) >= 2:
            plots.append((list(a[0]), list(a[1])))
        return old[0](self, *a, **k)
    hits = everywhere(real, run_simulation)
    Ax.plot, Fig.savefig = plot, lambda self, *a, **k: None
    multiprocessing.cpu_count = os.cpu_count = lambda: workers
    os.chdir(d)
    try:
        with after_events(first), deadline(120):
            r = CliRunner().invoke(cli.cli_run, command(kind, given), standalone_mode=False)
    finally:
        os.chdir(old[4])
        Ax.plot, Fig.savefig, multiprocessing.cpu_count, os.cpu_count = old[:4]
        for m, k in hits:
            setattr(m, k, real)
        import matplotlib.pyplot as plt
        plt.close("all")
    ev = [dict(op="run", p=x["p"], r=x["r"]) for x in lines(log)]
    end = dict(op="end", started=len(lines(log + ".started")), failed=bool(r.exception) or r.exit_code != 0, listed=[], res=[], static={}, plot=[])
    if not end["failed"]:
        try:
            li, res, st = report(kind, g, r.output, r.return_value, vary)
            end.update(listed=li, res=[coarse(x) for x in res], static=st)
            end["plot"] = [[(N(x) if vary not in WHOLE else int(x)) for x in xs] == li and [coarse([y]) for y in ys] == [coarse(x[:1]) for x in res]
                           for xs, ys in plots if kind == "rf" and vary and len(xs) == len(li)]
        except (KeyError, IndexError, StopIteration, ValueError, TypeError) as e:
            end.update(listed=["unreadable report " + repr(e)])
    elif not isinstance(r.exception, (Exception, SystemExit)):
        raise r.exception
    shutil.rmtree(d, ignore_errors=True)
    return dict(kind=kind, sets=kind == "tt", given=g, workers=workers, order=order or [],
                error=repr(r.exception) if r.exception else "", ev=ev + [end])


def pp_given(rng):
    return dict(interval=[rng.randrange(1, 80) / 4], channel_delay=[rng.randrange(0, 40) / 8], service_delay=[rng.randrange(0, 40) / 8],
                loss_prob=[rng.randrange(1, 7) / 8], max_pings=[rng.randrange(60, 140)])


def rf_given(rng):
    return dict(speed=[rng.randrange(300, 500)], encoding=[rng.choice("1248")], tari=[rng.choice(["6.25", "12.5", "18.75", "25"])],
                tid_word_size=[rng.randrange(1, 9)], altitude=[rng.randrange(30, 60) / 8], reader_offset=[rng.randrange(0, 40) / 8],
                tag_offset=[rng.randrange(0, 40) / 8], power=[rng.randrange(27, 35)], num_tags=[rng.randrange(2, 5)],
                useadjust=[rng.randrange(2)], delta=[rng.randrange(1, 8) / 8])


def tt_set(rng):
    return tuple(rng.randrange(4, 8) / 8 for _ in range(4)), tuple(rng.randrange(1, 40) / 8 for _ in range(4))


def tt_given(rng, n=1):
    sets = [tt_set(rng) for _ in range(n)]
    return dict(probability=[p for p, _ in sets], processing_time=[t for _, t in sets], max_transmisions=[rng.randrange(20, 60)],
                chunks_number=[rng.randrange(1, 5)], scenario=[rng.randrange(1, 4)])


VARY = dict(pp=dict(interval=lambda r: r.randrange(1, 80) / 4, channel_delay=lambda r: r.randrange(0, 40) / 8,
                    service_delay=lambda r: r.randrange(0, 40) / 8, loss_prob=lambda r: r.randrange(1, 15) / 16, max_pings=lambda r: r.randrange(60, 140)),
            rf=dict(speed=lambda r: r.choice([r.randrange(300, 999), r.randrange(1000, 1600)]), tid_word_size=lambda r: r.choice([r.randrange(1, 10), r.randrange(10, 17)]), altitude=lambda r: r.randrange(20, 96) / 8,
                    reader_offset=lambda r: r.randrange(0, 40) / 8, tag_offset=lambda r: r.randrange(0, 90) / 8, power=lambda r: r.choice([5, 9, r.randrange(26, 36)])))


def several(rng, f, n, repeat=True):
    vs = [f(rng) for _ in range(n)]
    if repeat and n > 2 and rng.random() < .6:
        vs[rng.randrange(1, n)] = vs[0]
    if rng.random() < .3:
        vs.sort(reverse=True)
    return vs


def distinct(rng, f, n):
    vs = []
    while len(vs) < n:
        v = f(rng)
        if v not in vs:
            vs.append(v)
    return vs


def c26(chk: Check):
    rng = random.Random(chk.seed * 31 + 26)
    inv = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS EachOnce OwnResult Delivered Bounded OneVaries Distinct NothingWhenRejected\nPROPERTY Ends\n")
    chk.model_check("PoolMC", inv + f"CONSTANTS Vals = {{1, 2, 3}}\nMostVals = 3\nWorkers = {{1, 2, 3}}\nEmit = FALSE\n", "PoolMC/command lines", workers=8)
    orders = []
    for n in (2, 3, chk.n(4, 5)):
        g = chk.graph("PoolMC", inv.replace("NothingWhenRejected", "NothingWhenRejected EmitOrder").replace("PROPERTY Ends\n", "")
                      + f"CONSTANTS Vals = {{1}}\nMostVals = {n}\nWorkers = {{1, 2, 3, 4, 5}}\nEmit = TRUE\n", f"PoolMC/orders of {n}")
        o = [(x["order"], x["w"]) for x in g.json if "order" in x]
        rng.shuffle(o)
        orders += o[:chk.n(5, 60)] if n < 5 else o[:200]
    tr = []
    for kind in ("pp", "tt", "rf"):
        names = list(VARY.get(kind, {"": 0}))
        for j, (o, w) in enumerate(orders if kind != "rf" or not chk.quick else orders[:8]):
            n = len(o)
            if kind == "tt":
                given = tt_given(rng, n)
                given["probability"] = distinct(rng, lambda r: tt_set(r)[0], n)
            else:
                given = dict(pp=pp_given, rf=rf_given)[kind](rng)
                v = names[j % len(names)]
                given[v] = distinct(rng, VARY[kind][v], n)
                rng.shuffle(given[v])
            tr.append(run_cli(chk, kind, given, w, o, rng))
        for _ in range(chk.n(6, 40)):               # random lists with repetitions, random workers
            if kind == "tt":
                given = tt_given(rng, rng.randrange(2, 9))
                if rng.random() < .5:
                    k = rng.randrange(1, len(given["probability"]))
                    given["probability"][k], given["processing_time"][k] = given["probability"][0], given["processing_time"][0]
            else:
                given = dict(pp=pp_given, rf=rf_given)[kind](rng)
                v = rng.choice(names)
                given[v] = several(rng, VARY[kind][v], rng.choice([2, 3, 5] if kind == "rf" else [2, 3, 9, 17]))
            tr.append(run_cli(chk, kind, given, rng.choice([1, 2, 3, 8]), None, rng))
        long = [tt_given(rng, 19)] if kind == "tt" else [dict(pp_given(rng), **{v: distinct(rng, VARY[kind][v], 21)}) for v in ("interval", "max_pings")] if kind == "pp" else []
        if kind == "tt":                            # equal sets
            x = tt_given(rng)
            long.append(dict(x, probability=x["probability"] * 3, processing_time=x["processing_time"] * 3))
            long.append(dict(x, probability=x["probability"] * 2, processing_time=x["processing_time"] + [tt_set(rng)[1]]))
        if kind == "pp":                            # values close to each other
            long += [dict(pp_given(rng), interval=[1.0009765625, 1.001953125, 1.00048828125]), dict(pp_given(rng), loss_prob=[.3125, .31298828125, .3125152587890625]), dict(pp_given(rng), interval=[2.0, 1.00006103515625, 1.0000152587890625])]
        if kind == "rf":                            # values of different lengths in print
            long += [dict(rf_given(rng), speed=[1200, 900, 450]), dict(rf_given(rng), tid_word_size=[10, 2, 3])]
            long += [dict(rf_given(rng), altitude=[10.5, 4.0]), dict(rf_given(rng), power=[30, 9])]
            long += [dict(rf_given(rng), reader_offset=[1.5, -2.0, 0.5]), dict(rf_given(rng), power=[-7, 30, 3]), dict(rf_given(rng), tag_offset=[-3.0, -0.5, 2.0])]
            long += [dict(rf_given(rng), power=[-3], reader_offset=[-1.5], tag_offset=[-0.25]), dict(rf_given(rng), power=[0]), dict(rf_given(rng), altitude=[0.0], reader_offset=[2.5], tag_offset=[1.0]), dict(rf_given(rng), power=[31, 0, -1])]
            long += [dict(rf_given(rng), altitude=distinct(rng, VARY[kind]["altitude"], 18), num_tags=[2])]
        for given in long:
            tr.append(run_cli(chk, kind, given, rng.choice([1, 2, 3]), None, rng))
        for _ in range(chk.n(3, 12)):               # single values
            tr.append(run_cli(chk, kind, dict(pp=pp_given, rf=rf_given, tt=tt_given)[kind](rng), 2, None, rng))
        for _ in range(chk.n(5, 30)):               # to be rejected
            given = dict(pp=pp_given, rf=rf_given, tt=lambda r: tt_given(r, r.randrange(1, 4)))[kind](rng)
            if kind == "tt":
                x = _ % 5
                if x < 2:
                    given["scenario"] = [[0, 4, -1, 7][rng.randrange(4)]]
                elif x == 2:
                    given.update(scenario=[3], chunks_number=[-(_ // 5)])
                else:
                    k = "probability" if x == 3 else "processing_time"
                    given[k] = given[k] + [tt_set(rng)[k != "probability"]] * rng.randrange(1, 3)
            else:
                for v in rng.sample(names, rng.choice([2, 2, 3])):
                    given[v] = several(rng, VARY[kind][v], rng.randrange(2, 4))
                    if rng.random() < .2:
                        given[v] = [given[v][0]] * 2
            tr.append(run_cli(chk, kind, given, 2, None, rng))
        if kind == "tt":                            # the number of chunks only counts in scenario 3
            for s in (1, 2):
                given = dict(tt_given(rng), chunks_number=[0], scenario=[s])
                tr.append(run_cli(chk, kind, given, 2, None, rng))
    hit = sum(1 for t in tr if t["order"] and [e["p"] for e in t["ev"][:-1]] == reordered(t))
    chk.parts.append(dict(kind="finishing orders imposed on the real pool", wished=sum(1 for t in tr if t["order"]), obtained=hit))
    chk.sample(dict(trace=tr[0]))
    chk.validate("CliTrace", tr)


def reordered(t):
    g = t["given"]
    if t["sets"]:
        v = list(zip(g["probability"], g["processing_time"]))
        p = [dict({n: x[0] for n, x in g.items()}, probability=a, processing_time=b) for a, b in v]
    else:
        vary = next(n for n, x in g.items() if len(x) > 1)
        p = [dict({n: x[0] for n, x in g.items()}, **{vary: a}) for a in sorted(set(g[vary]))]
    return [p[k - 1] for k in t["order"]]
