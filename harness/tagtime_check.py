"""C10..C12: the tag-time models against TagChain and MatrixTrace."""
import contextlib, io, random
from harness.core import Check, deadline
from harness.observe import after_events, measure

TICK = 0.125


def chain_run(sc, m, t, p, n, cut, seed, ind=0):
    import numpy as np
    from pysim.models.tag_time.objects import Config
    from pysim.models.tag_time.handlers import initialize, finalize
    from pysim.sim import build_simulation, run_simulation
    from pysim.sim.logger import ModelLoggerConfig
    random.seed(seed); np.random.seed(seed % 2**32)
    snaps = []

    def snap(sim, h, args):
        mo = sim.context
        sec = mo.secured if isinstance(mo.secured, (list, tuple)) else [mo.secured]
        e = dict(op="snap", tm=round(sim.time / TICK), v=[x.num_pakage_sent for x in
                 [mo.arbitrate, mo.reply, mo.acknowledged, *sec, mo.final]], tx=mo.num_transmissions)
        if snaps and snaps[-1]["tm"] == e["tm"]:
            snaps[-1] = e
        else:
            snaps.append(e)
    cfg = Config(probability=tuple(x / 16 for x in p), processing_time=tuple(x * TICK for x in t),
                 max_transmisions=n, chunks_number=m, scenario=sc)
    kw = {} if cut is None else dict(max_sim_time=cut * TICK)
    with after_events(snap), deadline(60), contextlib.redirect_stdout(io.StringIO()):
        stats, _, _ = run_simulation(build_simulation("tt", init=initialize, init_args=(cfg,), fin=finalize,
            logger_config=ModelLoggerConfig(), **kw))
    return dict(sc=sc, m=m if sc == 3 else 1, t=t, p=p, n=-1 if n is None else n, cut=0 if cut is None else 1, ind=ind,
                ev=snaps + [dict(op="report", tm=round(stats.sim_time / TICK), reason=stats.exit_reason.name)])


def c10(chk: Check):
    rng = random.Random(chk.seed * 13 + 10)
    for scs, ms, n, ma in chk.n([("{1, 2}", "{1}", 2, 13), ("{3}", "{1, 2, 3}", 2, 14)],
                                [("{1, 2}", "{1}", 2, 17), ("{3}", "{1, 2, 4}", 2, 18)]):
        chk.model_check("TagChainMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            f"CONSTANTS Scs = {scs} Ms = {ms} N = {n} MaxAtt = {ma}\nINVARIANTS TimeIsSumOfAttempts EachStatePassed "
            "InOrder TxCounts NeverTooMany NoFailureIsShortest\n", "TagChainMC/properties", workers=8)
    tr = []

    def add(*a, **k):
        try:
            tr.append(chain_run(*a, seed=rng.randrange(10**9), **k))
        except Exception as e:                                       # noqa: BLE001
            chk.violation("C10.unexpected_" + type(e).__name__, dict(error=repr(e), args=a))
    ts = [[1, 2, 4, 8], [8, 4, 2, 1], [3, 3, 3, 3], [5, 1, 7, 2]]
    for sc in (1, 2, 3):
        for m in ((1,) if sc != 3 else (1, 2, 3, 7, chk.n(20, 45))):
            for t in ts:
                add(sc, m, t, [16] * 4, rng.choice([1, 2, 5]), None)
                add(sc, m, t, [rng.choice([8, 12, 15]) for _ in range(4)], rng.choice([1, 3, 10]), None)
            if m == 1:                              # more tags than a thousand, none fails
                add(sc, m, rng.choice(ts), [16] * 4, chk.n(1150, 5000), None)
            for k in range(4):                      # one impossible state: runs until the limit
                p = [16] * 4
                p[k] = 0
                add(sc, m, rng.choice(ts), p, 3, 200)
            add(sc, m, ts[0], [12, 14, 10, 15], None, 300)
            for _ in range(chk.n(2, 10)):
                add(sc, m, rng.choice(ts), [rng.choice([6, 8, 10, 13, 16]) for _ in range(4)], chk.n(60, 300), None)
        for p in ([8] * 4, [10, 7, 8, 6])[:1 if sc < 3 else 2]:
            add(sc, 1 if sc < 3 else 2, ts[0], p, chk.n(250, 900) if sc > 1 else chk.n(60, 150), None, ind=1)
    chk.sample(dict(trace=dict(tr[1], ev=tr[1]["ev"][:5])))
    chk.validate("TagChainTrace", tr)
    # the probability of every state itself: the share of the draws with which a lone package passes it
    tally = []
    for sc, m in ((1, 1), (2, 1), (3, 1), (3, 2)):
        for k in range(4):
            for a in (0, 1, 5, 8, 11, 15, 16) if (sc, m) != (3, 2) else (3, 8):
                p = [16] * 4
                p[k] = a
                v = measure(lambda: chain_run(sc, m, [1, 1, 1, 1], p, 1, 40, seed=0)["ev"][-1]["reason"] != "REACHED_SIM_TIME_LIMIT", draws=None)
                if v is not None:
                    tally.append(dict(op="share", clause="C10.success_probability", v=round(v * 16e6), a=a))
    if tally:
        chk.validate("TallyTrace", [dict(ev=tally)])


def c11(chk: Check):
    import numpy as np
    from pysim.models.tag_time import mc
    rng = random.Random(chk.seed * 13 + 11)
    np.random.seed(chk.seed); random.seed(chk.seed)
    ev, tally = [], []
    I = lambda m: [[round(float(x) * 1024) if abs(float(x) * 1024 - round(float(x) * 1024)) < 1e-6 else -1
                    for x in row] for row in m]
    for sc in (1, 2, 3):
        for n in list(range(1, 8)) + [rng.randrange(8, 30)]:
            for _ in range(chk.n(6, 60)):
                p = [rng.choice([0, 1, 512, 1023, 1024, rng.randrange(1025)]) for _ in range(n)]
                q = [x / 1024 for x in p]
                fn = [None, mc.create_matrix_1, mc.create_matrix_2, mc.create_matrix_3][sc]
                m = fn(*q) if sc < 3 else fn(q)
                ev.append(dict(op="matrix", sc=sc, p=p, m=I(m)))
        # batches
        for n in (1, 3, 6):
            size = 4 if sc < 3 else 3 + n
            sets = [[rng.randrange(1, 1025) for _ in range(size)] for _ in range(n)]
            ms = mc.create_input_probs(sc, [[x / 1024 for x in s] for s in sets])
            ev.append(dict(op="batch", n=len(ms), want=n, res=[], exp=[]))
            for s, m in zip(sets, ms):
                ev.append(dict(op="matrix", sc=sc, p=s, m=I(m)))
            times = [[rng.randrange(1, 50) for _ in range(size)] for _ in range(n)]
            r = mc.run_multiple_models(sc, [[1.0] * size] * n, [[x / 1000 for x in t] for t in times], 3)
            ev.append(dict(op="batch", n=len(r), want=n, res=[round(x * 1000) for x in r],
                           exp=[sum(t) * 1000 for t in times]))
    # deterministic chains: any successor function that reaches the last state
    for _ in range(chk.n(150, 3000)):
        n = rng.randrange(1, 9)
        order = list(range(2, n + 1))
        rng.shuffle(order)
        order = [1] + order
        cut = rng.randrange(1, n + 1)
        nxt = [rng.randrange(1, n + 2) for _ in range(n)]
        for a, b in zip(order[:cut], order[1:cut] + [n + 1]):
            nxt[a - 1] = b
        mat = np.zeros((n + 1, n + 1))
        for k, x in enumerate(nxt):
            mat[k, x - 1] = 1
        mat[n, n] = 1
        t = [rng.randrange(0, 100) for _ in range(n)] + [rng.randrange(50, 90)]
        stay = rng.choice([list, tuple, np.array])([x / 8 for x in t[:n + rng.choice([0, 1])]])
        with deadline(20):
            v = mc.monte_carlo(np.cumsum(mat, axis=1), stay, rng.choice([1, 2, 5]))
        ev.append(dict(op="walk", nxt=nxt, t=t, v=round(float(v) * 8 / 1000 * 10**3) // 10**3
                       if abs(float(v) * 8 / 1000 - round(float(v) * 8 / 1000)) < 1e-6 else -1))
    # random rows: which successor is taken shows in the stay time
    for a in (0, 2, 5, 8, 11, 14, 16):
        for shape in range(3):
            n = chk.n(1500, 6000)
            # state 0 is passed; then a branch of weight a/16 to a state of stay 1, else to one of stay 0
            mat = np.array([[0, 1, 0, 0, 0], [0, 0, a / 16, 1 - a / 16, 0], [0, 0, 0, 0, 1], [0, 0, 0, 0, 1], [0, 0, 0, 0, 1]])
            if shape == 1:      # branch in the first state
                mat[0] = [0, 0, a / 16, 1 - a / 16, 0]
            if shape == 2:      # three-way branch
                mat[1] = [0, 0, a / 16, (16 - a) / 32, (16 - a) / 32]
            with deadline(60):
                v = mc.monte_carlo(np.cumsum(mat, axis=1), [0, 0, 1.0, 0.0], n)
            k = float(v) * n / 1000
            ev.append(dict(op="trials", n=n, v=n if abs(k - round(k)) < 1e-6 else -1))
            tally.append(dict(op="binomial", clause="C11.next_state_from_current_row", k=round(k), n=n, a=a))
    # the weights themselves: the share of the draws with which one of the first k successors is taken
    for _ in range(chk.n(40, 300)):
        n = rng.choice([2, 3, 4, 5])
        w = [rng.randrange(0, 17) for _ in range(n - 1)]
        w = [y - x for x, y in zip([0] + sorted(w), sorted(w) + [16])]
        k, lead = rng.randrange(1, n + 1), rng.randrange(0, 2)
        mat = np.zeros((lead + n + 2, lead + n + 2))
        for j in range(lead):
            mat[j, j + 1] = 1
        mat[lead, lead + 1:lead + 1 + n] = [x / 16 for x in w]
        mat[lead + 1:, -1] = 1
        stay = [0.0] * (lead + 1) + [1.0] * k + [0.0] * (n - k) + [0.0]
        with deadline(60):
            v = measure(lambda: mc.monte_carlo(np.cumsum(mat, axis=1), stay, 1) > 0, draws=None)
        if v is not None:
            tally.append(dict(op="share", clause="C11.next_state_from_current_row", v=round(v * 16e6), a=sum(w[:k])))
    for n in (2, 3, 5, 7, 11, 13):
        for _ in range(6):
            mat = np.array([[0, .5, .5, 0], [0, 0, 0, 1], [0, 0, 0, 1], [0, 0, 0, 1.]])
            v = mc.monte_carlo(np.cumsum(mat, axis=1), [0, 1.0, 0.0], n)
            k = float(v) * n / 1000
            ev.append(dict(op="trials", n=n, v=n if abs(k - round(k)) < 1e-6 else -1))
    # consecutive choices are independent: one path through a binary tree
    for depth, n in ((2, 20000), (3, 20000), (3, 20000)):
        size = 2 ** (depth + 1) - 1
        mat = np.zeros((size + 1, size + 1))
        for k in range(size):
            if 2 * k + 2 < size:
                mat[k, 2 * k + 1] = mat[k, 2 * k + 2] = .5
            else:
                mat[k, size] = 1
        mat[size, size] = 1
        leaf = rng.randrange(2 ** depth - 1, size)
        stay = [0.0] * size
        stay[leaf] = 1.0
        with deadline(60):
            v = mc.monte_carlo(np.cumsum(mat, axis=1), stay, n)
        tally.append(dict(op="binomial", clause="C11.choices_are_independent", k=round(float(v) * n / 1000), n=n, a=16 >> depth))
    # very unlikely and very likely successes
    for sc in (1, 2, 3):
        n, p = chk.n(300, 2000), 1 / 2048
        with deadline(120):
            r = mc.run_multiple_models(sc, [[p, 1, 1, 1]], [[0.001, 0, 0, 0]], n)
        tally.append(dict(op="rare", clause="C11.geometric_visits", k=round(16 * float(r[0]) * n * p), n=n))
    n, p = chk.n(200000, 800000), .9995
    with deadline(120):
        r = mc.run_multiple_models(rng.choice([2, 3]), [[p, 1]], [[0.001, 0]], n)
    tally.append(dict(op="poisson", clause="C11.unlikely_failures", k=round(float(r[0]) * n - n), n=round(n * (1 - p) / p)))
    for a in (4, 8, 15):
        for sc in (1, 2, 3):
            n = 400
            # visits of the first state are geometric in every scenario with the other states certain
            with deadline(60):
                r = mc.run_multiple_models(sc, [[a / 16, 1, 1, 1]], [[0.001, 0, 0, 0]], n)
            tally.append(dict(op="geometric", clause="C11.geometric_visits", k=round(float(r[0]) * n), n=n, a=a))
        # scenario 1 falls back to the start: failures in the third state revisit the first
        r = mc.run_multiple_models(1, [[1, 1, a / 16, 1]], [[0.001, 0, 0, 0]], 400)
        tally.append(dict(op="geometric", clause="C11.falls_back", k=round(float(r[0]) * 400), n=400, a=a))
    chk.sample(dict(events=[ev[0], ev[-30]]))
    chk.validate("MatrixTrace", [dict(ev=ev[k::16]) for k in range(16)])
    chk.validate("TallyTrace", [dict(ev=tally)])
    chk.assumptions.append("probabilities of the compared matrices are multiples of 1/1024, sampled chains use sixteenths")


def c12(chk: Check):
    from pysim.models.tag_time import analitical_model as am
    rng = random.Random(chk.seed * 13 + 12)
    chk.model_check("AbsorptionMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        f"CONSTANTS D = {chk.n(4, 6)} MaxT = {chk.n(1, 2)}\nINVARIANTS Scenario1 Scenario1Visits Staying\n", "AbsorptionMC")
    ev = []
    for _ in range(chk.n(2000, 20000)):
        d = rng.choice([1, 2, 4, 5, 8, 10])
        a = [rng.randrange(1, d + 1) for _ in range(4)]
        t = [rng.randrange(0, 15) for _ in range(4)]
        v = am.calculate_first_case([(x / d, y) for x, y in zip(a, t)])
        ev.append(dict(op="an1", a=a, d=d, t=t, v=round(float(v) * a[0] * a[1] * a[2] * a[3])))
    def small(): return rng.choice([1.0, 0.5, 1e-3, 1e-6, 3e-5, 10 ** -rng.uniform(0, 9)])
    for _ in range(chk.n(1500, 8000)):
        m = [rng.randrange(0, 10**6) for _ in range(4)]
        p = [small() for _ in range(4)]
        ph2 = [(x, y * x) for x, y in zip(p, m)]
        ev.append(dict(op="an2", m=m, v=R(am.calculate_second_case(ph2))))
        c = rng.choice([1, 1, 2, 5, 10, 40])
        mc = rng.randrange(0, 10**6)
        pc = small()
        ev.append(dict(op="an3", m=m[:3], c=c, mc=mc, v=R(am.calculate_third_case(ph2[:3], (pc, pc * mc), c))))
        prod, ph1 = 1.0, []
        for x, y in zip(reversed(p), reversed(m)):
            prod *= x
            ph1.append((x, y * prod))
        ev.append(dict(op="an1small", m=m, v=R(am.calculate_first_case(ph1[::-1]))))
    # batches, from the lists the preparation step produces
    for sc in (1, 2, 3) * chk.n(3, 20):
        for n in (1, 2, 5):
            for c in ((1,) if sc < 3 else (1, 2, 6)):
                ps, ts, want, f = [], [], [], rng.choice([1, 1000, 2**20])
                tup = rng.choice([list, tuple])
                for _ in range(n):
                    size = 4 if sc < 3 else 3 + c
                    m = [rng.randrange(0, 10**5) for _ in range(3)] + [rng.randrange(0, 10**5)] * (size - 3)
                    p = [small() for _ in range(3)] + [small()] * (size - 3)
                    if ps and rng.random() < .4:    # probabilities of an earlier set
                        p = list(rng.choice(ps))
                    prod, tt = 1.0, []
                    if sc == 1:
                        for x, y in zip(reversed(p), reversed(m)):
                            prod *= x
                            tt.insert(0, y * prod / 1000 / f)
                    else:
                        tt = [x * y / 1000 / f for x, y in zip(p, m)]
                    ps.append(tup(p)); ts.append(tup(tt)); want.append(sum(m))
                    if rng.random() < .15:          # the same set once more
                        ps.append(ps[-1]); ts.append(ts[-1]); want.append(want[-1])
                try:
                    v = am.run_analitica(sc, am.convert_data_for_analitica(ps, ts), c)
                except Exception as e:                               # noqa: BLE001
                    chk.violation("C12.batch_works", dict(sc=sc, n=n, chunks=c, error=repr(e)))
                    continue
                ev.append(dict(op="anbatch", v=[R(x * f) for x in v], want=want))
    chk.sample(dict(events=[ev[0], ev[-1]]))
    chk.validate("MatrixTrace", [dict(ev=ev[k::16]) for k in range(16)])
    chk.assumptions.append("results are compared to 1 part in 10^6; inputs are chosen so that the exact expected value is an integer")


def R(v):
    v = float(v)
    return max(-2 * 10**9, min(2 * 10**9, round(v))) if v == v else -10**9
