"""C01..C06: the simulation kernel against EventQueue/Kernel/Contexts specs."""
import itertools, random
from harness.core import Check, Graph, Mismatch, deadline


# ---------------------------------------------------------------- C05: queue
def _obs(q, full=True):
    return dict(len=len(q), empty=1 if q.empty else 0, full=int(full),
                list=[e[1] for e in q.to_list()] if full else [])


def _exname(fn, *a):
    try:
        return fn(*a), ""
    except Exception as e:                                   # noqa: BLE001
        return None, type(e).__name__


def c05(chk: Check):
    from pysim.sim.simulator import EventQueue
    rng = random.Random(chk.seed)
    times, ids = chk.n("{0, 1, 2}", "{0, 1, 2, 3}"), chk.n(4, 5)
    consts = f"CONSTANTS Times = {times} MaxIds = {chk.n(4, 4)} Unknown = 99\n"
    chk.model_check("QueueMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + consts +
        "INVARIANTS Conservation FifoTies\nPROPERTIES PopIsMinimal CancelTouchesOne\n",
        "QueueMC/properties")
    r = chk.graph("QueueMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        f"CONSTANTS Times = {times} MaxIds = {ids} Unknown = 99\n"
        "VIEW View\nACTION_CONSTRAINT EmitEdge\nINVARIANT EmitState\n", "QueueMC/graph")
    g = Graph([canon(x) for x in r.json])
    traces = 0
    conv = {0: -1.5, 1: 0, 2: 0.1, 3: 7.25}
    for start, path in g.paths(rng, max_len=40):
        q = EventQueue()
        hist = []
        try:
            for s, a, t in path:
                replay_queue_step(q, a, g.state[t], conv, hist)
        except Mismatch as m:
            chk.violation(m.clause, dict(path=hist, **m.data))
        traces += 1
        if traces <= 2:
            chk.sample(dict(replayed_path=hist[:12]))
    chk.traces += traces
    chk.parts.append(dict(kind="replay", spec="QueueMC", paths=traces,
                          edges=len(g.edges), states=len(g.state)))
    # code -> spec: long random histories
    tr = []
    for k in range(chk.n(150, 1500)):
        tr.append(dict(ev=random_queue_trace(EventQueue, rng, chk.n(60, 200), k)))
    chk.sample(dict(random_history=tr[0]["ev"][:6]))
    # crowded queues: hundreds of pending entries, most of them cancelled
    for k in range(chk.n(12, 60)):
        tr.append(dict(ev=crowded_queue_trace(EventQueue, rng, k, chk.n(150, 300))))
    # very long histories, and more than a thousand entries at once
    for n in chk.n([70000], [70000, 140000, 300000]):
        tr.append(dict(ev=churn_queue_trace(EventQueue, rng, n)))
    tr.append(dict(ev=crowded_queue_trace(EventQueue, rng, 0, 2200, waves=1)))
    tr.append(dict(ev=filled_queue_trace(EventQueue, rng, chk.n(20000, 80000))))
    chk.validate("QueueTrace", tr)


def canon(r):
    for k in ("s", "t", "s0"):
        if k in r:
            r[k]["pend"] = sorted(r[k]["pend"], key=lambda e: e["id"])
    return r


def replay_queue_step(q, a, t, conv, hist):
    op = a["op"]
    hist.append(a)
    if op == "push":
        r = q.push(conv[a["t"]], ("task", a["r"]))
        if r != a["r"]:
            raise Mismatch("C05.push_id", expected=a["r"], got=r)
    elif op == "pop":
        r, ex = _exname(q.pop)
        want = (conv[a["t"]], a["r"], ("task", a["r"]))
        if ex or tuple(r) != want:
            raise Mismatch("C05.pop_first", expected=want, got=r, error=ex)
    elif op == "popempty":
        r, ex = _exname(q.pop)
        if ex != "KeyError":
            raise Mismatch("C05.pop_raises_iff_empty", got=r, error=ex)
    elif op == "cancel":
        r, ex = _exname(q.cancel, a["id"])
        if ex:
            raise Mismatch("C05.cancel_no_error", error=ex)
    elif op == "clear":
        r, ex = _exname(q.clear)
        if ex:
            raise Mismatch("C05.clear_no_error", error=ex)
    o = _obs(q)
    ids = sorted(e["id"] for e in t["pend"])
    if o["len"] != len(ids) or o["empty"] != (0 if ids else 1) or sorted(o["list"]) != ids:
        raise Mismatch("C05.observers", expected=ids, got=o)


def churn_queue_trace(EventQueue, rng, n):
    """Normal operations around n pairs of push and pop, which are recorded as one event."""
    q = EventQueue()
    ev, box, pend = [], dict(last=0), []

    def step(op, **f):
        e = dict(op=op, ex="", id=-1, t=-1, task=-1)
        e.update(f)
        e.update(_obs(q))
        ev.append(e)

    def push(t):
        i = q.push(t, ("task", box["last"]))
        box["last"] += 1
        pend.append(i)
        step("push", id=i, t=t)

    def cancel(i):
        _, ex = _exname(q.cancel, i)
        step("cancel", id=i, ex=ex)

    def pop():
        r, ex = _exname(q.pop)
        step("pop", ex=ex) if r is None else step("pop", t=r[0], id=r[1], task=r[2][1])

    def rle(runs, i):
        if runs and runs[-1]["a"] + runs[-1]["n"] == i:
            runs[-1]["n"] += 1
        elif len(runs) < 50:
            runs.append(dict(a=i if isinstance(i, int) else -5, n=1))
    for t in (9, 8, 9, 7, 9):
        push(t)
    cancel(pend[1])
    pushed, popped, bad = [], [], 0
    for _ in range(n):
        rle(pushed, q.push(3, ("task", box["last"])))
        r, ex = _exname(q.pop)
        if r is None:
            bad += 1
        else:
            rle(popped, r[1])
            bad += r[0] != 3 or r[2] != ("task", box["last"])
        bad += len(q) != 4
        box["last"] += 1
    step("churn", n=n, t=3, pushed=pushed, popped=popped, bad=bad)
    for t in (9, 5, 9, 4):
        push(t)
    for i in (0, 5, box["last"] - n, box["last"] - 2, pend[2]):
        cancel(i)
    push(6)
    for _ in range(8):
        pop()
    return ev


def crowded_queue_trace(EventQueue, rng, k, size, waves=3):
    """Bursts of pushes, waves of cancellations, partial drains, repeated."""
    q = EventQueue()
    ev, pend, last = [], {}, 0

    def step(op, **f):
        e = dict(op=op, ex="", id=-1, t=-1, task=-1)
        e.update(f)
        e.update(_obs(q, full=len(ev) % 40 == 0))
        ev.append(e)

    for _ in range(waves):
        shape = rng.choice(["up", "down", "random", "few", "zigzag"])
        n = rng.randrange(size // 2, size)
        for j in range(n):
            t = dict(up=j, down=size - j, random=rng.randrange(4 * size), few=rng.randrange(3),
                     zigzag=j if j % 2 else size - j)[shape]
            i = q.push(t, ("task", last))
            pend[i] = t
            last += 1
            step("push", id=i, t=t)
        order = dict(a=sorted(pend), b=sorted(pend, reverse=True), c=rng.sample(sorted(pend), len(pend)),
                     d=sorted(pend, key=lambda i: pend[i]),
                     e=sorted(pend, key=lambda i: -pend[i]))[rng.choice("abcde")]
        for i in order[:int(len(order) * rng.choice([0.5, 0.8, 0.95, 0.99]))]:
            _, ex = _exname(q.cancel, i)
            pend.pop(i)
            step("cancel", id=i, ex=ex)
            if rng.random() < 0.1:           # and once more, or something unknown
                j = rng.choice([i, last + 7])
                _, ex = _exname(q.cancel, j)
                step("cancel", id=j, ex=ex)
        for _ in range(rng.choice([1, len(pend) // 2, len(pend) + 1])):
            r, ex = _exname(q.pop)
            if r is None:
                step("pop", ex=ex)
            else:
                pend.pop(r[1], None)
                step("pop", t=r[0], id=r[1], task=r[2][1])
    return ev


def filled_queue_trace(EventQueue, rng, n):
    """Tens of thousands of entries at once: filled, thinned out, partly drained, filled again, emptied."""
    q, ev, box = EventQueue(), [], dict(last=0)

    def step(op, **f):
        e = dict(op=op, ex="", id=-1, t=-1, task=-1)
        e.update(f)
        e.update(_obs(q))
        ev.append(e)

    def fill(n):
        a, m, runs = rng.choice([1, 7919, 104729 % n]), rng.choice([1, 97, 2 * n]), []
        for k in range(n):
            i = q.push(k * a % m, ("task", box["last"]))
            box["last"] += 1
            if runs and runs[-1]["a"] + runs[-1]["n"] == i:
                runs[-1]["n"] += 1
            elif len(runs) < 50:
                runs.append(dict(a=i if isinstance(i, int) else -5, n=1))
        step("fill", n=n, a=a, m=m, pushed=runs)

    def thin(m):
        r = rng.randrange(m)
        for i in range(r, box["last"], m):
            q.cancel(i)
        step("thin", m=m, r=r)

    def drain(n):
        got, bad = [], 0
        for _ in range(n):
            r, ex = _exname(q.pop)
            if r is None:
                break
            got.append([r[0], r[1]])
            bad += r[2] != ("task", r[1])
        step("drain", n=n, got=got, bad=bad)
    fill(n)
    thin(rng.choice([2, 3, 7]))
    drain(len(q) // 3)
    fill(n // 4)
    thin(5)
    drain(min(len(q), 3 * n))
    r, ex = _exname(q.pop)
    step("pop", ex=ex)
    return ev


def random_queue_trace(EventQueue, rng, n, k):
    q = EventQueue()
    pool = rng.choice([[0, 1], [0.0, 0.1, 0.2, 0.1 + 0.2, 0.3], [5], [-1, 2.5, 1e9, float("inf")],
                       [i / 7 for i in range(12)]])
    ranks = {t: i for i, t in enumerate(sorted(set(pool)))}
    ev, last = [], 0
    falsy = [0, "", (), False, [], 0.0, {}, frozenset(), b""]
    mk = (lambda n: ("task", n)) if k % 3 else (lambda n: falsy[n % len(falsy)] if n % 2 == 0 else ("task", n))
    w = rng.choice([(6, 4, 3, 0.2), (5, 5, 1, 0.1), (4, 2, 4, 0.05), (3, 6, 2, 0.3)])
    for _ in range(n):
        op = rng.choices(["push", "pop", "cancel", "clear"], w)[0]
        e = dict(op=op, ex="", id=-1, t=-1, task=-1)
        if op == "push":
            t = rng.choice(pool)
            e["id"] = q.push(t, mk(last))
            e["t"] = ranks[t]
            last += 1
        elif op == "pop":
            r, e["ex"] = _exname(q.pop)
            if r is not None:
                x = mk(r[1]) if isinstance(r[1], int) else None
                e.update(t=ranks.get(r[0], -2), id=r[1], task=r[1] if type(x) is type(r[2]) and x == r[2] else -3)
        elif op == "cancel":
            e["id"] = rng.choice([rng.randrange(last + 2), max(0, last - 1), last + 50])
            _, e["ex"] = _exname(q.cancel, e["id"])
        else:
            _, e["ex"] = _exname(q.clear)
        e.update(_obs(q))
        ev.append(e)
    return ev


# ------------------------------------------------------- C01..C04, C06: kernel
BASE = dict(Sims="{1}", Delays="{0, 1, 2}", MaxIds=4, Ops='{"sched"}', LimT="{9}", LimR="{9}",
            LimN="{9}", MaxEl=0, CtxKinds='{"fresh"}', BadKinds='{"neg"}', MaxOps=3)
ALLPROPS = dict(inv="TimeOrdered TiesInSchedulingOrder RunsWhenDue AtMostOnce CancelledNeverRuns "
                "DrainedMeansAllRan PendingIsTheRest FinishedForAReason LimitsRespected FinalizedOnce "
                "ServedCounts BuildRunsNothing WellNested",
                prop="NoStepAfterStop RejectedLeavesNoTrace Isolation")
BAD = '{"neg", "none", "nocall", "noargs", "neg+none", "nocall+noargs"}'
CONF = {
 "C01": [dict(MaxIds=(5, 6), MaxOps=(3, 3)),
         dict(Ops='{"sched", "cancel"}', MaxIds=4, Delays="{0, 1}", MaxOps=(2, 3))],
 "C02": [dict(Ops='{"sched", "cancel"}', MaxIds=(4, 5), Delays="{0, 1}", MaxOps=(2, 3))],
 "C03": [dict(Ops='{"sched", "stop", "tick"}', MaxIds=3, LimT="{9, 0, 1}", LimR="{9, 0, 1}", MaxEl=2,
              LimN="{9, 0, 1, 2}", Delays=("{0, 1}", "{0, 1, 2}"), MaxOps=(2, 3)),
         dict(Ops='{"sched", "stop", "cancel"}', MaxIds=3, LimT="{9, 1}", LimN="{9, 2}", MaxOps=2)],
 "C04": [dict(Ops='{"sched", "bad", "cancel"}', BadKinds=BAD, MaxIds=(3, 4), Delays="{0, 1}", MaxOps=2),
         dict(Ops='{"sched", "bad", "stop"}', BadKinds='{"neg", "none", "nocall", "noargs"}', MaxIds=3,
              LimN="{9, 2}", LimT="{9, 0}", MaxOps=2, Delays="{0, 1}")],
 "C06": [dict(Sims="{1, 2}", Ops='{"sched", "nest", "outer"}', MaxIds=2, Delays="{0, 1}", MaxOps=2,
              CtxKinds='{"fresh", "given"}', LimN=("{9}", "{9, 1}")),
         dict(Sims="{1, 2}", Ops='{"sched", "nest", "stop", "ctx"}', MaxIds=(1, 2), Delays="{0}", MaxOps=2,
              CtxKinds='{"fresh", "given"}'),
         dict(Sims="{1, 2}", Ops='{"sched", "nest", "cancel"}', MaxIds=2, Delays="{0, 1}", MaxOps=1)],
}
W = dict(sched=6, cancel=2, bad=1, stop=0.1, tick=0.5, ctx=0.2)
PROF = {
 "C01": dict(delays=[[0], [0, 1], [0, 0.1, 0.2, 0.3], [0, 0.0, 1e-9, 1], [1 / 3, 2 / 3, 1, 0], [0, float("inf"), 5],
                     [0, 1e-13, 1e-300, 5e-324, 1e-9], [1e-15, 1e-18, 0, 1e-12],
                     [1e6 / 3, .1, 1e7 / 7, 3.0000001], [1e9 + .3, 1e-5, 0.7, 1e12 / 7], [1e15 + .125, 2.5]],
             nops=[0, 1, 2, 3, 5], weights=dict(sched=8, cancel=1), lt=0.1, lr=0, ln=0.1, budget=70),
 "C02": dict(delays=[[0], [0, 1], [0, 0.5, 2], [1], [0.1, 0.7, 3], [float("inf"), 1], [1e-300, 0, 1e-14]], nops=[1, 2, 4, 6],
             weights=dict(sched=5, cancel=5), lt=0.05, lr=0, ln=0.05, budget=90),
 # many pending at once, most of them cancelled
 "crowd": dict(delays=[[0], [0, 1], [i / 7 for i in range(40)], [3, 2, 1, 0.5, 0.25], [5, 9, 1e-9]], nops=[1, 2, 60, 150],
               weights=dict(sched=6, cancel=5), lt=0, lr=0, ln=0, budget=450),
 # more than a thousand pending at once
 "mass": dict(delays=[[i / 3 for i in range(700)]], nops=[700, 1100], weights=dict(sched=9, cancel=1), lt=0, lr=0, ln=0,
              budget=2600, obs=0.02),
 "C03": dict(delays=[[0, 1], [0, 0.5, 1, 2], [0.3, 0.1], [0]], nops=[0, 1, 2, 3],
             weights=dict(sched=8, cancel=1, stop=0.35, tick=1), lt=0.4, lr=0.4, ln=0.4, budget=50),
 "C04": dict(delays=[[0, 1], [0, 0.5, 1, 2], [-0.0, 1], [1e6, 0], [1e-3, 1e18]], nops=[1, 2, 4, 6],
             weights=dict(sched=5, cancel=1, bad=4), lt=0.1, lr=0, ln=0.1, budget=70),
 "C06": dict(delays=[[0, 1], [0, 0.5, 1, 2]], nops=[1, 2, 3],
             weights=dict(sched=6, cancel=1, stop=0.15, tick=0.3, ctx=0.4, nest=1.2, bad=0.3), sims=4,
             outer=True, lt=0.2, lr=0.2, ln=0.2, budget=90),
}


def kcfg(conf, quick, tail):
    c = dict(BASE)
    c.update({k: (v[0 if quick else 1] if isinstance(v, tuple) else v) for k, v in conf.items()})
    return (tail + "\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            + "\n".join(f"  {k} = {v}" for k, v in c.items()) + "\n"), c


def kernel(chk: Check):
    from harness import kernel_drv as D
    pid = chk.pid
    rng = random.Random(chk.seed * 1000 + int(pid[1:]))
    for n, conf in enumerate(CONF[pid]):
        small = dict(conf)                      # history variables need smaller bounds
        if chk.quick:
            small["MaxIds"] = 3 if "Sims" not in conf else 1
        cfg, _ = kcfg(small, chk.quick, "SPECIFICATION Spec\nINVARIANTS " + ALLPROPS["inv"]
                      + "\nPROPERTIES " + ALLPROPS["prop"])
        chk.model_check("KernelMC", cfg, f"KernelMC/{pid}.{n}/properties", workers=8)
        if n == 0:
            cfg, _ = kcfg(dict(small, MaxIds=2, MaxOps=1), True, "SPECIFICATION FairSpec\nPROPERTIES Terminates")
            chk.model_check("KernelMC", cfg, f"KernelMC/{pid}.{n}/liveness")
        cfg, c = kcfg(conf, chk.quick, "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT EmitEdge\nINVARIANT EmitState")
        r = chk.graph("KernelMC", cfg, f"KernelMC/{pid}.{n}/graph")
        g = Graph([canonk(x) for x in r.json])
        k = 0
        for start, path in g.paths(rng, is_end=lambda s: not s["k"], max_len=60):
            w = D.Replay([(s, a, g.state[t]) for s, a, t in path], c["MaxIds"], rng, pid)
            try:
                with deadline(20):
                    w.run()
            except Mismatch as m:
                chk.violation(m.clause, m.data)
            except Exception as e:                                   # noqa: BLE001
                chk.violation(f"{pid}.unexpected_{type(e).__name__}", dict(error=repr(e), walk=w.acts[:w.p]))
            k += 1
            if k == 5:
                chk.sample(dict(replayed_walk=w.acts[:25]))
            if len(chk.viol) > 20:
                break
        chk.traces += k
        chk.parts.append(dict(kind="replay", spec="KernelMC", paths=k, edges=len(g.edges), states=len(g.state)))
    tr = []
    crowds = chk.n(25, 300) if pid in ("C01", "C02") else 0
    for n in range(chk.n(500, 6000) + crowds):
        prof = PROF["crowd" if n < crowds else pid]
        if rng.random() < .3:           # everything else a model may do, mixed in
            prof = dict(prof, weights=dict(dict(stop=.3, tick=.3, ctx=.3, bad=.5), **prof["weights"]))
            if "sims" not in prof and rng.random() < .3:
                prof.update(sims=3, outer=True, weights=dict(prof["weights"], nest=.5), budget=min(prof["budget"], 60))
        rec = D.Recorder(rng, prof)
        try:
            with deadline(20):
                tr += rec.record()
        except Mismatch as m:
            chk.violation(m.clause, m.data)
        except Exception as e:                                       # noqa: BLE001
            chk.violation(f"{pid}.unexpected_{type(e).__name__}", dict(error=repr(e), raw=[
                {k: v for k, v in x.items() if k[0] != "f"} for s in rec.out.values() for x in s["raw"][-6:]]))
    if pid in ("C01", "C02", "C03"):
        long = [(70000, 1.0, pid == "C03"), (1100, 0.125, True)] + ([] if chk.quick else [(300000, 0.5, False), (66000, 3.0, True)])
        for n, d, lim in long:
            try:
                with deadline(60):
                    tr += D.Recorder(rng, dict(PROF[pid], budget=30)).chain(n, d, lim)
            except Exception as e:                                       # noqa: BLE001
                chk.violation(f"{pid}.unexpected_{type(e).__name__}", dict(error=repr(e), chain=n))
    if pid == "C02":
        for n in range(chk.n(1, 3)):
            rec = D.Recorder(rng, PROF["mass"])
            with deadline(60):
                tr += rec.record()
    if tr:
        chk.sample(dict(recorded=[{k: v for k, v in e.items() if k not in ("f0", "f1", "fo")} for e in tr[0]["ev"][:8]]))
    chk.validate("KernelTrace", tr, prefixes={"C01", "C02", "C03", "C04"} if pid == "C06" else None)


def canonk(r):
    for k in ("s", "t", "s0"):
        if k in r:
            for x in r[k]["ks"]:
                x["p"] = sorted(x["p"], key=lambda e: e["id"])
    return r
