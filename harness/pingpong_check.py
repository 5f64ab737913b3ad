"""C08, C09: ping-pong against the PingPong spec."""
import ast, random, re
from harness.core import Check, deadline
from harness.observe import after_events, measure

TICK = 0.125


class first_number:
    """The first ping's number is drawn from a range: start at one of its ends."""
    def __init__(self, end): self.end = end
    def __enter__(self):
        self.old = random.randint
        if self.end is not None:
            random.randint = lambda *x, **k: (k["b"] if "b" in k else x[-1]) - 2 if self.end else (k["a"] if "a" in k else x[0])
    def __exit__(self, *e):
        random.randint = self.old


def one_run(rng, i, ch, sv, n, a, cut=None, seed=0, end=None, start=None):
    """One run of the real model; returns a trace, the losses seen."""
    from pysim.models.pingpong.objects import Config
    from pysim.models.pingpong.handlers import initialize, finalize
    from pysim.models.pingpong.cli import run_model
    from pysim.sim import build_simulation, run_simulation
    from pysim.sim.logger import ModelLoggerConfig
    random.seed(seed)
    snaps, raw, box = [], [], {}

    def snap(sim, h, args):
        m = sim.context
        c = m.client
        if "n0" not in box:
            box["n0"] = c.number - 1
        e = dict(op="snap", tm=round(sim.time / TICK * 8), sent=c.num_pings_sent, acked=c.num_acknowledged,
                 missed=c.num_missed, bad=c.num_bad_pongs, num=c.number - box["n0"])
        raw.append((e["sent"], e["acked"]))
        if snaps and snaps[-1]["tm"] == e["tm"]:
            snaps[-1] = e
        else:
            snaps.append(e)

    def begin(sim, cfg):
        model = initialize(sim, cfg)
        if start is not None and isinstance(getattr((model or sim.context).client, "number", None), int):
            (model or sim.context).client.number = start        # as after a very long run
        return model
    cfg = Config(interval=i * TICK, channel_delay=ch * TICK, service_delay=sv * TICK,
                 loss_prob=a / 16, max_pings=n)
    res, stats, err = None, None, ""
    with after_events(snap), deadline(30), first_number(end):
        try:
            kw = {} if cut is None else dict(max_sim_time=cut * TICK)
            stats, _, res = run_simulation(build_simulation("pp", init=begin, init_args=(cfg,),
                fin=finalize, logger_config=ModelLoggerConfig(), **kw))
        except Exception as e:                                       # noqa: BLE001
            err = type(e).__name__
    lose = []
    for k in range(1, (snaps[-1]["sent"] if snaps else 0) + 1):
        before = [x for s, x in raw if s < k]
        inside = [x for s, x in raw if s <= k]
        lose.append(0 if inside[-1] > (before[-1] if before else 0) else 1)
    if cut is not None and lose:
        lose[-1] = 0            # its outcome was not decided before the end
    last = dict(op="report", tm=round(stats.sim_time / TICK * 8) if stats else -1,
                reason=stats.exit_reason.name if stats else err, hasres=0 if res is None else 1,
                miss=0, avgi=0, avgd=0)
    if res is not None:
        last.update(miss=int(res.miss_rate * 10**6 + 1e-6), avgi=round(res.avg_interval / TICK * 1000 * 8),
                    avgd=round(res.avg_delay / TICK * 1000 * 8))
    return dict(i=i * 8, ch=ch * 8, sv=sv * 8, n=-1 if n is None else n, cut=0 if cut is None else 1,
                lose=lose, ev=snaps + [last]), lose


def pairs(l):
    return [(l[k], l[k + 1]) for k in range(0, len(l) - 1, 2)]


def pp(chk: Check):
    rng = random.Random(chk.seed * 31 + 8)
    chk.model_check("PingPongMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Is = {0, 1, 3}\n"
        f"Chs = {{0, 2}}\nSvs = {{0, 1}}\nNs = {{1, 2, {chk.n(6, 11)}}}\n"
        "INVARIANTS OneInFlight IntervalAfterEnd ExchangeTakes NeverBad StopsOnTime NeverTooMany Conservation MissedAreTheLost Means\n"
        "PROPERTY Stops\n", "PingPongMC/properties")
    tr, tally = [], []
    cfgs = [(10, 2, 1), (1, 2, 3), (3, 1, 0), (2, 0, 1), (1, 0, 0), (5, 5, 5), (80, 16, 8)]
    for n in range(1, chk.n(6, 9)):
        for c in rng.sample(cfgs, chk.n(3, 7)):
            for a in (0, 4, 8, 12, 16):
                for k in range(1 if a in (0, 16) else chk.n(3, 12)):
                    tr.append(one_run(rng, *c, n, a, seed=rng.randrange(10**9))[0])
    for end in (True, True, False):                             # numbers beyond both ends of the first number's range
        tr.append(one_run(rng, *rng.choice(cfgs), 6, rng.choice([0, 6]), seed=rng.randrange(10**9), end=end)[0])
    for k in (*range(6, 18), 20, 24, 31, 32, 53):               # numbers of very long runs
        for a in (16, rng.choice([0, 6])):
            t, lose = one_run(rng, *rng.choice(cfgs), 8, a, seed=rng.randrange(10**9), start=2**k - 4)
            tr.append(t)
            if a in (0, 16):
                tally.append(dict(op="binomial", clause="C08.loss_probability", k=sum(lose), n=len(lose), a=a))
    for k in (3, 4, 5, 6):
        for a in (0, 16):
            t, lose = one_run(rng, *rng.choice(cfgs), 25, a, seed=rng.randrange(10**9), start=10**k - 20)
            tr.append(t)
            tally.append(dict(op="binomial", clause="C08.loss_probability", k=sum(lose), n=len(lose), a=a))
    for i, ch, sv in ((0, 1, 0), (0, 1, 2), (0, 0, 1)):        # zero interval / zero channel delay
        for a in (0, 8, 16):
            t, _ = one_run(rng, i, ch, sv, 5, a if (i, ch) != (0, 0) else 0, seed=rng.randrange(10**9))
            tr.append(t)
    tr.append(one_run(rng, 0, 0, 0, 4, 0)[0])
    tr.append(one_run(rng, 10, 2, 1, 0, 4, cut=60)[0])         # no ping at all
    tr.append(one_run(rng, 0, 0, 0, 4, 16)[0])
    for _ in range(chk.n(25, 200)):                             # cut by the model-time limit
        c = rng.choice([x for x in cfgs if all(x)])
        tr.append(one_run(rng, *c, rng.choice([None, 50]), rng.choice([0, 5, 8, 16]),
                          cut=rng.randrange(1, 90), seed=rng.randrange(10**9))[0])
    for a in (0, 1, 4, 8, 12, 15, 16):
        t, lose = one_run(rng, 10, 2, 1, 600 if a else 9000, a, seed=rng.randrange(10**9))
        tr.append(t)
        tally.append(dict(op="binomial", clause="C08.loss_probability", k=sum(lose), n=len(lose), a=a))
        if a in (4, 8, 12):
            pr = pairs(lose)
            tally.append(dict(op="binomial", clause="C08.losses_independent", k=sum(x & y for x, y in pr),
                              n=len(pr), a=a * a // 16))
    if chk.pid == "C08":                # the probability itself: the share of the draws with which a lone ping is lost
        for a in range(17):
            m = measure(lambda: one_run(rng, 10, 2, 1, 1, a)[1] == [1])
            if m is not None:
                tally.append(dict(op="share", clause="C08.loss_probability", v=round(m * 16e6), a=a))
    chk.sample(dict(trace=dict(tr[0], ev=tr[0]["ev"][:4])))
    chk.validate("PingPongTrace", tr)
    chk.validate("TallyTrace", [dict(ev=tally)])
    if chk.pid == "C09":
        chk.validate("PingPongTrace", multi(chk, rng))


def multi(chk, rng):
    from click.testing import CliRunner
    from pysim.models.pingpong.cli import cli_run
    out = []
    cases = [("interval", "-i", [3.0, 1.0, 2.0, 1.0]), ("interval", "-i", [10.0, 9.0]),
             ("channel_delay", "-ch", [4.0, 0.5, 4.0]), ("loss_prob", "-l", [1.0, 0.0]),
             ("channel_delay", "-ch", [float(x) for x in rng.sample(range(1, 40), 6)]),
             ("interval", "-i", [rng.choice([1.0, 2.5, 3.0, 7.0]) for _ in range(5)] + [11.0, 0.5])]
    for name, opt, vals in cases:
        base = dict(interval=("-i", 6.0), channel_delay=("-ch", 1.5), service_delay=("-s", 1.0),
                    loss_prob=("-l", 0.0 if name != "x" else 1.0), max_pings=("-mp", 5))
        args = []
        for k, (o, v) in base.items():
            for x in (vals if k == name else [v]):
                args += [o, str(x)]
        with deadline(60):
            r = CliRunner().invoke(cli_run, args)
        rows = {}
        for line in r.output.splitlines():
            m = re.match(r"\|\s*(\w+)\s*\|\s*(.+?)\s*\|$", line)
            if m:
                try:
                    rows[m[1]] = ast.literal_eval(m[2])
                except (ValueError, SyntaxError):
                    rows[m[1]] = m[2]
        if r.exception or "avg_interval" not in rows:
            chk.violation("C09.multi_run_works", dict(args=args, error=repr(r.exception), out=r.output[-800:]))
            continue
        col = dict(interval="avg_interval", channel_delay="avg_delay", loss_prob="miss_rate")[name]
        ok = all(rows[k] in (v, (v,), [v]) for k, (_, v) in base.items() if k != name)
        ok = ok and (name == "interval" or all(x == 6.0 for x in rows["avg_interval"]))
        ok = ok and (name == "channel_delay" or all(x == 1.5 for x in rows["avg_delay"]))
        ok = ok and (name == "loss_prob" or all(x == 0.0 for x in rows["miss_rate"]))
        mil = lambda l: [round(x * 10000) for x in (l if isinstance(l, (list, tuple)) else [l])]
        e = dict(op="multi", given=mil(vals), listed=mil(rows[name]), res=mil(rows[col]), other=1 if ok else 0)
        out.append(dict(i=0, ch=0, sv=0, n=0, cut=0, lose=[], ev=[e]))
        chk.sample(dict(cli=args, parsed=e))
    return out
