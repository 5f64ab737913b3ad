"""Drives the real kernel: replay of spec walks and recording of random programs."""
import functools, random
from harness import clock
from harness.core import Mismatch
import pysim.sim.simulator as SM
from pysim.sim import build_simulation, run_simulation

_last_kernel = [None]


def capture_kernels():
    K = getattr(SM, "Kernel", None)
    if K is None or getattr(K, "_verif_wrapped", False):
        return
    orig = K.__init__
    @functools.wraps(orig)
    def init(self, *a, **k):
        orig(self, *a, **k)
        _last_kernel[0] = self
    K.__init__ = init
    K._verif_wrapped = True


capture_kernels()


class Handlers:
    """Callables of every kind, all forwarding to one entry point."""
    N = 6

    def __init__(self, entry):
        def h0(sim, *a): entry(0, sim, a)
        def h1(sim, *a): entry(1, sim, a)
        class F:
            def __call__(s, sim, *a): entry(2, sim, a)
            def method(s, sim, *a): entry(3, sim, a)
            @staticmethod
            def static(sim, *a): entry(5, sim, a)
        self._f = F()
        self.fns = [h0, h1, self._f, self._f.method,
                    functools.partial(lambda k, sim, *a: entry(k, sim, a), 4), F.static]

    def index(self, fn):
        for i, f in enumerate(self.fns):
            if fn is f or fn == f:
                return i
        return -1


def mkargs(rng, vals):
    k = rng.randrange(4)
    if k == 0: return tuple(vals)
    if k == 1: return list(vals)
    if k == 2: return (v for v in vals)
    return dict.fromkeys(vals).keys()


class NotIterable:
    pass


def bad_request(rng, kind, sim, h):
    """kind: '+'-joined subset of neg, none, nocall, noargs.  Returns class names of the error."""
    ks = kind.split("+")
    delay = rng.choice([-1, -0.5, -1e-12, -1e300, float("-inf"), -3, -1e-20, -1e-300, -5e-324]) if "neg" in ks \
        else rng.choice([0, 1, 0.5])
    fn = h.fns[rng.randrange(h.N)]
    if "none" in ks: fn = None
    if "nocall" in ks: fn = rng.choice([42, "handler", (h.fns[0],), [h.fns[0]], NotIterable(), 0, "", False, b"h"])
    args = rng.choice([(), ("bad",)])
    if "noargs" in ks: args = rng.choice([5, None, NotIterable(), 1.5, len, NotIterable, lambda: 1, h.fns[1], True, 0, object(), 1j])
    via = "schedule" if "neg" in ks or rng.random() < 0.6 else "call"
    try:
        if via == "call":
            sim.call(fn, args)
        elif rng.random() < 0.5:
            sim.schedule(delay, fn, args)
        else:
            sim.schedule(delay=delay, handler=fn, args=args, msg="bad")
    except Exception as e:                                          # noqa: BLE001
        return [c.__name__ for c in type(e).__mro__], via
    return [], via


EXPECTED = {"neg": "SchedulingInPastError", "none": "ValueError", "nocall": "TypeError",
            "noargs": "TypeError"}


class Ctx:
    """A falsy context object: must not be mistaken for a missing one."""
    def __init__(self, t): self.t = t
    def __len__(self): return 0


def mkctx(rng, tag):
    return rng.choice([lambda: Ctx(tag), lambda: {"tag": tag}, lambda: [], lambda: {}, lambda: 0.0])()


def mkctx_inst(rng, tag):
    """What a handler may install: anything, a context that says 'nothing' included."""
    return rng.choice([lambda: mkctx(rng, tag)] * 3 + [lambda: None, lambda: False, lambda: "", lambda: ()])()


# ------------------------------------------------------------------ replay
class Replay:
    """Executes one walk of KernelMC on the real kernel."""
    def __init__(self, path, maxids, rng, pfx, unit=0.25):
        self.acts = [a for _, a, _ in path]
        self.states = [t for _, _, t in path]
        self.p, self.rng, self.maxids, self.pfx, self.unit = 0, rng, maxids, pfx, unit
        self.S = {}

    def miss(self, clause, **d):
        raise Mismatch(f"{self.pfx}.{clause}", step=self.p, walk=self.acts[:self.p + 1], **d)

    def peek(self):
        return self.acts[self.p] if self.p < len(self.acts) else {"op": "nothing"}

    def run(self):
        with clock.fake_clock() as self.clk:
            while self.p < len(self.acts):
                self.toplevel()

    def toplevel(self):
        a = self.peek()
        self.p += 1
        if a["op"] == "build":
            self.build(a)
        elif a["op"] == "begin":
            self.begin(a)
        else:
            self.miss("replay_finished_early", expected=a)

    def build(self, a):
        s = a["s"]
        u = self.unit
        lim = a["lim"]
        st = dict(h=None, ids={}, uid=0, sim=None, fin=0, init=0, final=None)
        self.S[s] = st
        st["h"] = Handlers(lambda k, sim, args: self.handler(s, k, sim, args))
        kw = {}
        if lim["t"] >= 0: kw["max_sim_time"] = lim["t"] * u
        if lim["r"] >= 0: kw["max_real_time"] = float(lim["r"])
        if lim["n"] >= 0: kw["max_num_events"] = lim["n"]
        st["lim"] = lim
        st["given"] = mkctx(self.rng, s) if a["ctx"] == "given" else None
        if st["given"] is not None or self.rng.random() < 0.5:
            kw["context"] = st["given"]
        st["token"] = object()
        def init(sim, *args):
            self.init(s, sim, args)
        def fin(sim):
            return self.fin(s, sim)
        nruns = sum(x["init"] for x in self.S.values())
        st["gen"] = build_simulation(self.rng.choice(["m", "m%d" % s]), init=init,
            init_args=mkargs(self.rng, [("arg", s), ("x", s)]), fin=fin, **kw)
        st["kernel"] = _last_kernel[0]
        if nruns != sum(x["init"] for x in self.S.values()):
            self.miss("build_runs_nothing")

    def begin(self, a):
        s = a["s"]
        st = self.S[s]
        if self.rng.random() < 0.5 and all(x["final"] is not None or not x["init"] for x in self.S.values()):
            self.clk.advance(self.rng.choice([0.4, 3.0]))     # time between building and running does not count
        st["t0"] = self.clk.now
        res = run_simulation(st["gen"])
        if not st["init"]:
            self.miss("init_called")
        if st["final"] is None:
            self.miss("finish_expected_other", expected=self.peek())
        self.check_result(s, res)

    def init(self, s, sim, args):
        st = self.S[s]
        st["init"] += 1
        if st["init"] > 1:
            self.miss("init_once")
        if tuple(args) != (("arg", s), ("x", s)):
            self.miss("init_args", got=args)
        st["sim"] = sim
        if sim.time != 0:
            self.miss("init_clock", got=sim.time)
        a = self.acts[self.p - 1]
        if a["op"] != "begin" or a["s"] != s:
            self.miss("unexpected_init", got=s, expected=a)
        if st["given"] is None:
            if not (isinstance(sim.context, dict) and not sim.context):
                self.miss("fresh_context", got=repr(sim.context))
            for o, x in self.S.items():
                if o != s and x.get("ctx") is sim.context:
                    self.miss("context_not_shared")
            st["ctx"] = sim.context
            if self.rng.random() < 0.5:
                sim.context["mark"] = s
        else:
            st["ctx"] = st["given"]
        self.body(s, sim)

    def check_ctx(self, s, sim):
        if sim.context is not self.S[s]["ctx"]:
            self.miss("context_seen", sim=s, got=repr(sim.context))

    def handler(self, s, k, sim, args):
        st = self.S[s]
        a = self.peek()
        if a["op"] != "step" or a["s"] != s:
            self.miss("event_should_not_run", expected=a, got=args)
        self.p += 1
        # which event is this?
        if len(args) != 2 or args[0] not in st["ids"]:
            self.miss("event_args", got=args)
        ev = st["ids"][args[0]]
        if ev["id"] != a["id"]:
            self.miss("event_order", expected=a["id"], got=ev["id"])
        if k != ev["h"] or args[1] != ("v", args[0]):
            self.miss("event_handler", expected=ev, got=[k, args])
        if sim.time != a["now"] * self.unit:
            self.miss("clock", expected=a["now"] * self.unit, got=sim.time)
        self.last_h = k
        self.body(s, sim)
        st["lasth"] = k

    def body(self, s, sim):
        while True:
            self.check_ctx(s, sim)
            a = self.peek()
            self.p += 1
            op = a["op"]
            if op == "end":
                return
            if op == "build":
                self.build(a)
            elif op == "begin":
                self.begin(a)
            elif op in ("sched", "bad", "cancel", "stop", "tick", "ctx"):
                self.oper(a)
            else:
                self.miss("driver", got=a)
            self.check_future(self.states[self.p - 1])

    def check_future(self, t):
        for s, st in self.S.items():
            want = sorted(e["id"] for e in t["ks"][s - 1]["p"])
            f = getattr(st["kernel"], "future_events", None)
            if f is None or not st["init"]:
                continue
            l = f()
            if len(l) != len(want) or (sorted(e[0] for e in l) != want and
                                       sorted(e[1] for e in l) != want):
                self.miss("future_events", expected=want, got=[list(e[:2]) for e in l])

    def oper(self, a):
        s = a["s"]
        st = self.S[s]
        sim = st["sim"]
        op, rng = a["op"], self.rng
        if op == "sched":
            uid = ("u", s, st["uid"])
            st["uid"] += 1
            k = rng.randrange(Handlers.N)
            args = mkargs(rng, [uid, ("v", uid)])
            st["ids"][uid] = dict(id=a["r"], h=k)
            fn = st["h"].fns[k]
            d = a["d"] * self.unit
            if d == 0 and rng.random() < 0.5:
                r = sim.call(fn, args)
            elif rng.random() < 0.5:
                r = sim.schedule(d, fn, args)
            else:
                r = sim.schedule(delay=d, handler=fn, args=args, msg="m")
            if r != a["r"]:
                self.miss("event_id", expected=a["r"], got=r)
        elif op == "bad":
            ex, via = bad_request(rng, a["kind"], sim, st["h"])
            want = {EXPECTED[k] for k in a["kind"].split("+")}
            if not want & set(ex):
                self.miss("rejected_with_documented_error", kind=a["kind"], via=via, got=ex)
        elif op == "cancel":
            x = None if a["id"] == -1 else (a["id"] if a["id"] < self.maxids else rng.choice([10**6, a["id"] + 3]))
            r = sim.cancel(x)
            if r != a["r"]:
                self.miss("cancel_result", expected=a["r"], got=r)
        elif op == "stop":
            sim.stop("halt") if rng.random() < 0.5 else sim.stop(msg="halt")
        elif op == "tick":
            self.clk.advance(1.0)
        elif op == "ctx":
            c = mkctx_inst(rng, ("inst", s))
            sim.context = c
            st["ctx"] = c

    def fin(self, s, sim):
        st = self.S[s]
        st["fin"] += 1
        a = self.peek()
        if a["op"] != "finish" or a["s"] != s:
            self.miss("finished_too_early", expected=a)
        self.p += 1
        st["final"] = a
        if st["fin"] > 1:
            self.miss("finalizer_once")
        if sim.time != a["now"] * self.unit:
            self.miss("fin_clock", expected=a["now"] * self.unit, got=sim.time)
        self.check_ctx(s, sim)
        return st["token"]

    def check_result(self, s, res):
        st, a = self.S[s], self.S[s]["final"]
        stats, ctx, fin = res
        if fin is not st["token"]:
            self.miss("fin_value_returned", got=repr(fin))
        if ctx is not st["ctx"]:
            self.miss("context_returned", got=repr(ctx))
        got = dict(served=stats.num_events_processed, time=stats.sim_time,
                   el=stats.time_elapsed, reason=stats.exit_reason.name, msg=stats.stop_message)
        if got["served"] != a["served"]: self.miss("report_events", expected=a, got=got)
        if got["time"] != a["now"] * self.unit: self.miss("report_time", expected=a, got=got)
        if abs(got["el"] - a["el"]) > 1e-6: self.miss("report_elapsed", expected=a, got=got)
        if got["reason"] not in a["reasons"]: self.miss("report_reason", expected=a, got=got)
        if got["msg"] != ("halt" if a["stopped"] else ""): self.miss("report_message", expected=a, got=got)
        if a["last"] >= 0:
            lh = stats.last_handler
            if st["h"].index(lh) != st["lasth"] and not (
                    isinstance(lh, tuple) and lh and st["h"].index(lh[0]) == st["lasth"]):
                self.miss("report_last_handler", got=repr(lh))


# ------------------------------------------------------- random programs
class Recorder:
    """Runs one random program on one or several simulations, recording a trace for each."""
    def __init__(self, rng, profile):
        self.rng, self.pr = rng, profile
        self.out = {}
        self.stack = []
        self.budget = profile.get("budget", 60)

    def build(self, s):
        rng, pr = self.rng, self.pr
        st = dict(ev=[], raw=[], n=0, sim=None, ids=[], s=s)
        lim = dict(t=None, r=None, n=None)
        if rng.random() < pr.get("lt", 0.3): lim["t"] = rng.choice([0, 0.5, 1, 3, 0.3, 2.0, 7.1])
        if rng.random() < pr.get("lr", 0.2): lim["r"] = rng.choice([0.0, 1.0, 2.0, 5.0])
        if rng.random() < pr.get("ln", 0.3): lim["n"] = rng.choice([0, 1, 2, 3, 7, 15])
        st["lim"] = lim
        kw = {k: v for k, v in (("max_sim_time", lim["t"]), ("max_real_time", lim["r"]),
                                ("max_num_events", lim["n"])) if v is not None}
        st["h"] = Handlers(lambda k, sim, a: self.handler(st, k, sim, a))
        st["given"] = mkctx(rng, s) if rng.random() < 0.5 else None
        if st["given"] is not None:
            kw["context"] = st["given"]
        st["ctx"] = st["given"]
        st["token"] = object()
        st["delays"] = rng.choice(pr["delays"])
        st["weights"] = pr["weights"]
        fin = lambda sim: self.fin(st, sim)
        st["gen"] = build_simulation("m", init=lambda sim, *a: self.init(st, sim, a),
            init_args=mkargs(rng, [("i", s), 7]), fin=fin, **kw)
        st["kernel"] = _last_kernel[0]
        st["built_clean"] = st["sim"] is None
        self.out[s] = st
        return st

    def log(self, st, **e):
        e["tm"] = st["sim"].time if st["sim"] is not None else 0.0
        f = getattr(st["kernel"], "future_events", None)
        if f is not None and e["op"] != "report" and (self.pr.get("obs", 1) == 1 or self.rng.random() < self.pr["obs"]):
            l = f()
            e["f0"] = [x[0] if isinstance(x[0], int) else -9 for x in l]
            e["f1"] = [x[1] if isinstance(x[1], int) else -9 for x in l]
            e["fo"] = 1
        else:
            e.update(f0=[], f1=[], fo=0)
        e["cx"] = 1 if st["sim"] is None or st["sim"].context is st["ctx"] else 0
        st["raw"].append(e)

    def run(self, st):
        if self.rng.random() < 0.5:         # time between building and running counts for the runs around only
            d = self.rng.choice([0.25, 3.0])
            self.clk.advance(d)
            for o in self.stack:
                self.log(o, op="tick", d=round(d * 1000))
        st["t0"] = self.clk.now
        self.stack.append(st)
        st["el0"] = self.clk.now
        res = run_simulation(st["gen"])
        self.stack.pop()
        stats, ctx, fin = res
        lh = stats.last_handler
        li = st["h"].index(lh)
        if li < 0 and isinstance(lh, tuple) and lh:
            li = st["h"].index(lh[0])
        self.log(st, op="report", served=stats.num_events_processed, rt=stats.sim_time,
                 el=round(stats.time_elapsed * 1000), reason=stats.exit_reason.name,
                 msg=stats.stop_message or "", lh=li, ctxok=1 if ctx is st["ctx"] else 0,
                 finok=1 if fin is st["token"] else 0)

    def init(self, st, sim, args):
        again = st["sim"] is not None
        fresh = 1
        if not again:
            st["sim"] = sim
            if st["given"] is None:
                fresh = 1 if isinstance(sim.context, dict) and not sim.context else 0
                for o in self.out.values():
                    if o is not st and o["ctx"] is sim.context:
                        fresh = 0
                st["ctx"] = sim.context
                if fresh: sim.context["k"] = st["s"]
        self.log(st, op="begin", argsok=1 if tuple(args) == (("i", st["s"]), 7) else 0,
                 fresh=fresh, clean=1 if st["built_clean"] else 0)
        self.body(st, sim)

    def handler(self, st, k, sim, args):
        ok = len(args) == 2 and isinstance(args[0], int) and args[1] == ("v", st["s"], args[0])
        self.log(st, op="run", uid=args[0] if args and isinstance(args[0], int) else -7,
                 h=k, argsok=1 if ok else 0)
        self.body(st, sim)

    def fin(self, st, sim):
        self.log(st, op="fin")
        return st["token"]

    def body(self, st, sim):
        rng, pr = self.rng, self.pr
        nops = rng.choice(pr["nops"])
        for _ in range(nops):
            if self.budget <= 0:
                break
            self.budget -= 1
            op = rng.choices(list(pr["weights"]), list(pr["weights"].values()))[0]
            tgt = st
            if pr.get("outer") and rng.random() < 0.3:
                tgt = rng.choice(self.stack)
            self.oper(tgt, op)
        self.log(st, op="end")

    def oper(self, st, op):
        rng, sim = self.rng, st["sim"]
        if op == "sched":
            uid, k = st["n"], rng.randrange(Handlers.N)
            st["n"] += 1
            d = rng.choice(st["delays"])
            args = mkargs(rng, [uid, ("v", st["s"], uid)])
            due = sim.time + d
            if d == 0 and rng.random() < 0.5:
                r = sim.call(st["h"].fns[k], args)
            else:
                r = sim.schedule(d, st["h"].fns[k], args, *([] if rng.random() < .7 else ["msg"]))
            st["ids"].append(r)
            self.log(st, op="sched", uid=uid, h=k, due=due, r=r if isinstance(r, int) else -5)
        elif op == "bad":
            kind = rng.choice(["neg", "none", "nocall", "noargs", "neg+none", "neg+noargs",
                               "nocall+noargs", "neg+nocall", "none+noargs"])
            ex, via = bad_request(rng, kind, sim, st["h"])
            self.log(st, op="bad", kinds=kind.split("+"), ex=ex)
        elif op == "cancel":
            c = [None, 10**6, len(st["ids"]) + 2] + ([rng.choice(st["ids"])] * 3 + [st["ids"][-1]] * 2 if st["ids"] else [])
            x = rng.choice(c)
            r = sim.cancel(x)
            self.log(st, op="cancel", id=-1 if x is None else x, r=r if isinstance(r, int) else -5)
        elif op == "stop":
            m = rng.choice(["halt", "", "second", "done\u2116"])
            sim.stop(m) if rng.random() < .5 else sim.stop(msg=m)
            self.log(st, op="stop", m=m)
        elif op == "tick":
            d = rng.choice([0.25, 1.0, 2.0])
            self.clk.advance(d)
            for o in self.stack:
                self.log(o, op="tick", d=round(d * 1000))
        elif op == "ctx":
            c = mkctx_inst(rng, "inst")
            sim.context = c
            st["ctx"] = c
            self.log(st, op="ctx")
        elif op == "nest":
            if len(self.out) < self.pr.get("sims", 1):
                n = self.build(len(self.out) + 1)
                if rng.random() < 0.7:
                    self.run(n)
                    n["ran"] = True

    def chain(self, n, delay, lim=False):
        """A run of very many events: after the first few, every event schedules the next one; in the end a
        normal random body.  The n links in between are recorded as one event with run-length encoded ids."""
        rng = self.rng
        with clock.fake_clock() as self.clk:
            self.pr = dict(self.pr, lt=0, lr=0, ln=0)
            st = dict(ev=[], raw=[], n=0, sim=None, ids=[], s=1, given=None, ctx=None, token=object(), built_clean=True,
                      lim=dict(t=None, r=None, n=n + rng.choice([3, 5]) if lim else None), delays=[0, delay, 3 * delay],
                      weights=dict(sched=3, cancel=2))
            h = st["h"] = Handlers(lambda k, sim, a: link(k, sim, a))
            box = dict(left=-1, runs=[], bad=0, due=None, k=0)

            def req(sim, uid, d, k):
                due = sim.time + d
                return sim.schedule(d, h.fns[k], (uid, ("v", 1, uid))), due

            def init(sim):
                st["sim"], st["ctx"] = sim, sim.context
                self.log(st, op="begin", argsok=1, fresh=1, clean=1)
                for _ in range(4):
                    uid, d = st["n"], n * delay * rng.choice([4, 8])
                    st["n"] += 1
                    r, due = req(sim, uid, d, uid % 3)
                    st["ids"].append(r)
                    self.log(st, op="sched", uid=uid, h=uid % 3, due=due, r=r)
                for x in (1, 3):
                    self.log(st, op="cancel", id=x, r=sim.cancel(x))
                uid = st["n"]
                st["n"] += 1
                r, due = req(sim, uid, delay, 0)
                st["ids"].append(r)
                self.log(st, op="sched", uid=uid, h=0, due=due, r=r)
                box.update(due=due, left=n, uid=uid)
                self.log(st, op="end")

            def link(k, sim, a):
                if box["left"] > 0:
                    if box["left"] == n:
                        self.log(st, op="run", uid=a[0], h=k, argsok=1 if a == (box["uid"], ("v", 1, box["uid"])) else 0)
                    elif a != (box["uid"], ("v", 1, box["uid"])) or sim.time != box["due"] or k != 0:
                        box["bad"] += 1
                    box["left"] -= 1
                    uid = st["n"]
                    st["n"] += 1
                    r, due = req(sim, uid, delay, 0)
                    box.update(due=due, uid=uid)
                    runs = box["runs"]
                    if runs and runs[-1]["a"] + runs[-1]["n"] == r:
                        runs[-1]["n"] += 1
                    elif len(runs) < 50:
                        runs.append(dict(a=r if isinstance(r, int) else -5, n=1))
                    return
                if box["left"] == 0:
                    box["left"] = -2
                    if a != (box["uid"], ("v", 1, box["uid"])) or sim.time != box["due"] or k != 0:
                        box["bad"] += 1
                    st["ids"] += [0, box["uid"] // 2, box["uid"]]
                    self.log(st, op="chain", n=n, runs=box["runs"], bad=box["bad"], h=0)
                    self.body(st, sim)
                else:
                    self.handler(st, k, sim, a)
            self.out[1] = st
            kw = dict(max_num_events=st["lim"]["n"]) if lim else {}
            st["gen"] = build_simulation("m", init=init, fin=lambda sim: self.fin(st, sim), **kw)
            st["kernel"] = _last_kernel[0]
            self.run(st)
        return [self.pack(st)]

    def record(self):
        with clock.fake_clock() as self.clk:
            first = [self.build(1)]
            extra = self.pr.get("sims", 1) - 1
            if extra and self.rng.random() < 0.5:
                first.append(self.build(2))
            self.rng.shuffle(first)
            for st in first:
                self.run(st)
                st["ran"] = True
            for st in list(self.out.values()):
                if not st.get("ran"):
                    self.budget += 10
                    self.run(st)
        return [self.pack(st) for st in self.out.values()]

    def pack(self, st):
        vals = {0.0}
        for e in st["raw"]:
            vals.add(float(e["tm"]))
            for k in ("due", "rt"):
                if k in e: vals.add(float(e[k]))
        if st["lim"]["t"] is not None: vals.add(float(st["lim"]["t"]))
        rk = {v: i for i, v in enumerate(sorted(vals))}
        zero = rk[0.0]
        ev = []
        for e in st["raw"]:
            e = dict(e, tm=rk[float(e["tm"])])
            for k in ("due", "rt"):
                if k in e: e[k] = rk[float(e[k])]
            ev.append(e)
        lim = st["lim"]
        return dict(t=-1 if lim["t"] is None else rk[float(lim["t"])],
                    r=-1 if lim["r"] is None else round(lim["r"] * 1000),
                    n=-1 if lim["n"] is None else lim["n"], zero=zero, ev=ev)
