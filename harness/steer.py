"""Whole runs steered along behaviours of InventoryMC, and cuts, departures and arrivals at every phase of them."""
import contextlib
from collections import deque
from harness.core import Graph, deadline
from harness.fsm_check import command_fields, std
from harness.system_rec import Recorder

NUM = {1: 0x0A5C, 2: 0xF00F}
INVARIANTS = ("INVARIANTS ReaderNeverConfused AddressedAnswersAlone OneTagAtATime OffIsSilent OnPowersEveryone AckedOncePerPowerUp "
              "AckedOnceWhileKept SameQ EstimateIsQ ReplyingTags\n"
              "PROPERTIES AckFollowsLoneReply IdentifiesLoneReplier MemoryOfTheIdentified CollisionsAdvanceNobody\n")


def cfg(emit=False, Tags=2, Nums=1, Cfgs=(1, 2, 3, 4, 5, 6), Session=0, Adj=False, Q=(0, 1, 2), Power=True, Moves=True, Losses=True, Gaps=(1,)):
    b = lambda x: "TRUE" if x else "FALSE"
    st = lambda xs: "{" + ",".join(map(str, xs)) + "}"
    return ("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n"
            f"CONSTANTS Tags={st(range(1, Tags + 1))} Nums={st(range(1, Nums + 1))} CfgSet={st(Cfgs)} Session={Session} Adj={b(Adj)} QRange={st(Q)} "
            f"MaxRound=9 Power={b(Power)} Moves={b(Moves)} Losses={b(Losses)} Gaps={st(Gaps)} Late={b(emit)} Ghost={b(not emit)}\n"
            + ("ACTION_CONSTRAINT EmitEdge\nINVARIANT EmitState\n" if emit else INVARIANTS))


def model_check(chk):
    """The properties of the composition, whatever the tags draw, the medium loses and the moments of cuts and moves."""
    todo = [dict(), dict(Nums=2), dict(Session=1, Gaps=(1, 3)), dict(Adj=True), dict(Session=2, Power=False, Adj=True), dict(Tags=3, Cfgs=(1, 2, 4))]
    if not chk.quick:
        todo += [dict(Tags=3, Nums=2), dict(Tags=3, Adj=True), dict(Tags=3, Session=3, Gaps=(1, 3), Adj=True), dict(Tags=4, Cfgs=(1, 2), Moves=False),
                 dict(Tags=2, Nums=2, Adj=True, Q=(0, 1, 2, 3))]
    for a in todo:
        chk.model_check("InventoryMC", cfg(**a), "InventoryMC/" + ",".join(f"{k}={v}" for k, v in a.items()), workers=8)


class Script:
    """Fixed choices: the n-th command heard -> {tag: slot}, {tag: number}; is the reply to it lost?"""
    def __init__(self, steps):
        self.steps, self.n = steps, 0

    def lost(self):
        return self.n < len(self.steps) and self.steps[self.n].get("lost", False)

    def draws(self, cmd):
        self.n += 1
        s = self.steps[self.n - 1] if self.n <= len(self.steps) else {}
        return s.get("slot", {}), s.get("num", {})

    def seen(self, rec, e):
        pass

    def done(self):
        return False


class Steered(Recorder):
    """A run whose draws and losses follow a pilot."""
    def __init__(self, c, pilot, **kw):
        super().__init__(c, **kw)
        self.pilot, self.cur, self.tag, self.want = pilot, None, None, ({}, {})

    def build(self):
        m = super().build()
        m.medium.estimate_reader_rx_ber = lambda *a, **k: 1.0 if self.pilot.lost() else 0.0
        return m

    def step(self, sim, fn, args):
        super().step(sim, fn, args)
        if self.ev and self.ev[-1]["new"]:
            self.pilot.seen(self, self.ev[-1])
            if self.pilot.done():
                self.cut = True
                sim.stop("nothing left to try")

    @contextlib.contextmanager
    def watching(self):
        import numpy as np
        from pysim.models.rfid.objects import Tag
        with super().watching():
            o, randint, me = Tag.receive, np.random.randint, self

            def receive(tag, frame, *a, **k):
                if frame.command is not me.cur:
                    me.cur = frame.command
                    me.want = me.pilot.draws(frame.command)
                me.tag = me.tid(tag)
                try:
                    return o(tag, frame, *a, **k)
                finally:
                    me.tag = None

            def draw(low, high=None, *a, **k):
                x = randint(low, high, *a, **k)
                lo, hi = (0, low) if high is None else (low, high)
                want = me.want[hi - lo == 0x10000].get(me.tag)
                return x if want is None or a or k or not lo <= want < hi else want
            Tag.receive, np.random.randint = receive, draw
            try:
                yield
            finally:
                Tag.receive, np.random.randint = o, randint


# ---- behaviours of the specification replayed in the real model -------------
class Pilot:
    """Leads one run after another along the state graph, always towards the nearest edge not yet taken.  What the
    specification leaves to the code (is the round over after a change of Q?) the code decides."""
    def __init__(self, g, rng):
        self.g, self.rng = g, rng
        self.todo = set(range(len(g.edges)))
        self.out = {s: rng.sample(es, len(es)) for s, es in g.out.items()}
        self.dead, self.missed = set(), {}
        self.taken, self.steps, self.bad = set(), 0, None
        self.starts = list(g.init)

    def start(self):
        """the initial state of the next run; None when there is nothing left to do"""
        while self.starts:
            self.at = self.rng.choice(self.starts)
            if self.towards(self.at) is not None:
                self.plan, self.made, self.given = None, False, False
                return self.at
            self.starts.remove(self.at)
        return None

    def towards(self, s):
        par, dq = {s: None}, deque([s])
        while dq:
            k = dq.popleft()
            for e in self.out.get(k, ()):
                if e in self.dead:
                    continue
                if e in self.todo:
                    while par[k] is not None:
                        e = par[k]
                        k = self.g.edges[e][0]
                    return e
                t = self.g.edges[e][2]
                if t not in par:
                    par[t] = e
                    dq.append(t)
        return None

    def done(self):
        self.think()
        return self.plan is None

    def think(self):
        if not self.made and self.at is not None:
            self.plan, self.made = self.towards(self.at), True

    def act(self, e):
        return self.g.edges[e][1]

    def lost(self):
        self.think()
        self.given = self.plan is not None and self.act(self.plan).get("lost", False)
        return self.given

    def draws(self, cmd):
        self.think()
        if self.at is None:
            return {}, {}
        f = command_fields(cmd)
        fit = [e for e in self.out.get(self.at, ()) if self.act(e)["cmd"]["op"] == f["op"] and self.act(e)["cmd"].get("u") == f.get("u")
               and self.act(e).get("lost", False) == self.given]
        e = self.plan if self.plan in fit else next((x for x in fit if x in self.todo), fit[0] if fit else None)
        if e != self.plan and self.plan is not None:
            self.missed[self.plan] = self.missed.get(self.plan, 0) + 1
            if self.missed[self.plan] > 2:
                self.dead.add(self.plan)
                self.todo.discard(self.plan)
        if e is None:
            return {}, {}
        t = self.g.state[self.g.edges[e][2]]
        slots = {k: g["slot"] for k, g in enumerate(t["tg"], 1)
                 if g != "absent" and g["st"] in ("ARBITRATE", "REPLY") and f["op"] in ("query", "qadj") and g["slot"] >= 0}
        return slots, {y["k"]: NUM[y["n"]] for y in t["air"]["replies"] if y["n"]}

    def seen(self, rec, e):
        if self.at is None or (e["tx"]["cmd"]["op"] == "query" and not any(a["k"] == "h" for a in e["acts"])):
            return                              # the first Query, which no tag hears
        self.think()
        o = observed(e)
        out = self.g.out.get(self.at, ())
        # equal in what the tags and the reader show; the numbers were given
        cand = [i for i in out if same(o, expected(self.act(i), self.g.state[self.g.edges[i][2]])) and self.act(i).get("lost", False) == self.given]
        nums = {y["id"]: y["rrn"] for y in e["tx"]["replies"] if y["r"] in ("rn", "handle")}
        cand = [i for i in cand if all(NUM[y["n"]] == nums.get(y["k"]) for y in self.g.state[self.g.edges[i][2]]["air"]["replies"] if y["n"])]
        self.steps += 1
        if not cand:
            airs = {expected(self.act(i), self.g.state[self.g.edges[i][2]])[0] for i in out}
            if o[0] not in airs:
                self.bad = dict(state=self.g.state[self.at], observed=o, allowed=sorted(map(str, airs)))
            self.at = None                      # the rest is judged by SystemTrace alone
            return
        i = self.plan if self.plan in cand else cand[0]
        self.taken.add(i)
        self.todo.discard(i)
        self.at = self.g.edges[i][2]
        self.made, self.given = False, False


def settings(c, session):
    s = std()
    return dict(q=c["cq"], session=[s.Session.S0, s.Session.S1, s.Session.S2, s.Session.S3][session], read_tid_bank=c["tid"],
                target_strategy="switch" if c["c"] else "const", rounds_per_target=c["rpt"], reader_switch_power=False,
                target=[s.InventoryFlag.A, s.InventoryFlag.B][c["r"]["tgt"]], sel=s.SelFlag.ALL, adjust_delta=1.0,
                travel_distance=3.0, initial_distance_to_reader=1.5, speed=1.0, num_tags=9, update_interval=1.0)


def early(rec, n):
    """n tags at 10 us, 20 us ..., during the first Query; then none for a long time"""
    return (lambda: 1e-5 if rec.m is None or rec.m.generators[0].num_tags_generated < n else 5.0,)


def observed(e):
    """(command, replies), tags of one recorded event, in the terms of the specification"""
    c = e["tx"]["cmd"]
    air = (c["op"], tuple(sorted((y["id"], y["r"]) for y in e["tx"]["replies"])))
    tags = {a["id"]: (a["st"], a["slot"] if a["st"] == "ARBITRATE" else None, tuple(a["fl"])) for a in e["acts"] if a["k"] == "h"}
    return air, tags, str(e["rst"])


def expected(a, t):
    air = (a["cmd"]["op"], tuple(sorted((y["k"], y["r"]) for y in t["air"]["replies"])))
    tags = {k: (g["st"], g["slot"] if g["st"] == "ARBITRATE" else None, flags(g["fl"])) for k, g in enumerate(t["tg"], 1)}
    return air, tags, t["r"]["st"]


def flags(f):
    return tuple(f[str(k)] for k in range(4)) if isinstance(f, dict) else tuple(f)


def same(o, x):
    """equal up to a slot counter that can no longer reach zero (any negative or far number)"""
    if o[0] != x[0] or o[2] != x[2] or set(o[1]) != set(x[1]):
        return False
    return all(a[0] == b[0] and a[2] == b[2] and (b[1] is None or b[1] < 0 or a[1] == b[1]) for a, b in ((o[1][k], x[1][k]) for k in o[1]))


def replay(chk, rng, limit, session, length=100, **kw):
    """Runs over the state graph; every step of the real model is one of the steps the specification allows."""
    r = chk.graph("InventoryMC", cfg(True, Session=session, Power=False, Moves=False, **kw), f"InventoryMC/graph,S{session},{kw}")
    pilot, traces = Pilot(Graph(r.json), rng), []
    g = pilot.g
    while pilot.steps < limit:
        at = pilot.start()
        if at is None:
            break
        c, before = g.state[at], len(pilot.taken)
        cc = settings(c, session)
        cc.update(use_query_adjust=bool(kw.get("Adj")))
        rec = Steered(cc, pilot, max_steps=3 * length)
        cc["generation_interval"] = early(rec, len(c["tg"]))
        with deadline(30, "run_ends"):
            rec.run()
        if rec.crash:
            chk.violation(f"{chk.pid}.run_does_not_crash", dict(error=rec.crash, last=rec.ev[-2:]))
        if pilot.bad is not None:
            chk.violation("C18.follows_the_composition", dict(pilot.bad, last=rec.ev[-3:]))
            pilot.bad = None
        if rec.ev:
            t = rec.trace()
            t["config"] = "steered along InventoryMC"
            traces.append(t)
        if len(pilot.taken) == before:
            pilot.starts = [x for x in pilot.starts if x != at]
    chk.parts.append(dict(kind="replay_on_code", spec="InventoryMC", session=session, options=str(kw), graph_edges=len(g.edges),
                          edges_taken=len(pilot.taken), not_chosen_by_the_code=len(pilot.dead), runs=len(traces), steps=pilot.steps))
    return traces


# ---- power cuts, departures, arrivals and updates at every phase of a transaction ---------
def sweep(chk, rng, kinds, cuts, base_runs=2):
    """The same run again and again, each time with something happening at another of its moments."""
    traces, done = [], dict.fromkeys(kinds, 0)
    for b in range(base_runs):
        q, n = rng.choice([0, 1, 1]), rng.choice([2, 2, 3])
        steps = [dict(slot={k: rng.choice([0, 0, 1]) % 2 ** q for k in (1, 2, 3, 4)}, lost=rng.random() < .12) for _ in range(60)]
        adj = rng.random() < .3
        s = std()
        base = dict(q=q, session=rng.choice([s.Session.S0, s.Session.S1]), read_tid_bank=True, use_query_adjust=adj, adjust_delta=1.0,
                    target_strategy="switch", rounds_per_target=rng.choice([1, 2]), reader_power_on_duration=.9, reader_power_off_duration=.003,
                    s1_persistence=rng.choice([0.0, 2.0]), travel_distance=3.0, initial_distance_to_reader=1.5, speed=1.0, num_tags=n + 1,
                    sel=s.SelFlag.ALL, update_interval=.5, encoding=rng.choice([s.TagEncoding.FM0, s.TagEncoding.M2]))

        def go(over, limit, gap=None):
            c = dict(base, **over)
            rec = Steered(c, Script(steps), limit=limit, max_steps=400)
            made = lambda: 0 if rec.m is None else rec.m.generators[0].num_tags_generated
            c["generation_interval"] = (lambda: 1e-5 if made() < n else (gap if gap is not None and made() == n else 5.0),)
            with deadline(30, "run_ends"):
                rec.run()
            return rec
        r0 = go({}, .03)
        times = sorted({e["tm"] * 1e-9 for e in r0.ev if e["tm"] > 30000})
        for kind in kinds:
            for _ in range(cuts // base_runs):
                j = rng.randrange(len(times) - 1)
                t = rng.choice([times[j], times[j] + 1e-9, (times[j] + times[j + 1]) / 2, times[j] + rng.random() * (times[j + 1] - times[j]),
                                times[j + 1] - 2e-8])
                more = {}
                if kind == "power":
                    more = dict(reader_power_on_duration=t, reader_power_off_duration=rng.choice([2e-5, 1e-4, 4e-4, .003]))
                elif kind == "departure":
                    more = dict(travel_distance=t - 1e-5 * rng.randrange(1, n + 1), num_tags=rng.choice([1, n]))
                elif kind == "update":
                    more = dict(update_interval=t)
                r = go(more, t + rng.choice([.002, .008]), t - 1e-5 * n if kind == "arrival" else None)
                done[kind] += 1
                if r.crash:
                    chk.violation(f"{chk.pid}.run_does_not_crash", dict(kind=kind, at=t, error=r.crash, last=r.ev[-2:]))
                if r.ev:
                    x = r.trace()
                    x["config"] = f"{kind} at {t * 1e6:.3f} us"
                    traces.append(x)
    chk.parts.append(dict(kind="moment_sweep", **done, events=sum(len(x["ev"]) for x in traces)))
    return traces
