"""C14, C15 (and the tag's part of C20, C22): one real tag against Gen2Tag."""
import contextlib, logging, random
from harness.core import Check, Graph, deadline
from harness.walk import Online

TICK = 0.125


def in_simulation(fn):
    """Runs fn(kernel, model) inside the initialiser of a simulation of the RFID model."""
    from pysim.sim import build_simulation, run_simulation
    from pysim.sim.logger import ModelLoggerConfig
    from pysim.models.rfid.objects import Model
    logging.lastResort = logging.NullHandler()      # records without a sink are not printed
    box = []

    def init(sim):
        box.append(fn(sim, sim.context))
    run_simulation(build_simulation("fsm", init=init, context=Model(), logger_config=ModelLoggerConfig()))
    return box[0]


def std():
    import pysim.models.rfid.epcstd as s
    return s


class TagDrv:
    """A real tag, its inputs and what it did."""
    def __init__(self, kernel, model, rng, p, sens=-18):
        import numpy as np
        from pysim.models.rfid.objects import Generator
        self.rng, self.p, self.tick = rng, p, rng.choice([TICK, TICK, 2 ** -13, 2 ** -10, 64.0])
        g = Generator()
        g.pos0 = np.array([0.0, 1.0, 2.0])
        g.tag_antenna_direction = np.array([0.0, 0.0, 1.0])
        g.s1_persistence, g.s2_persistence, g.s3_persistence = (x * self.tick for x in p)
        g.sensitivity = sens
        tag = g.create_tag(model)
        tag.kernel = kernel
        hexes = lambda n: "".join(rng.choice(["0000", "FFFF", f"{rng.randrange(65536):04X}", f"{rng.randrange(65536):04X}"]) for _ in range(n // 4))
        self.big = rng.random() < .15                # a tag with large memory banks
        tag.user_mem = hexes(4 * (rng.randrange(200, 320) if self.big else 6))
        if self.big:
            tag.tid = tag.tid + hexes(4 * rng.randrange(60, 290))
            tag.epc = tag.epc + hexes(4 * rng.randrange(0, 25))
        model.statistics.create_tag_record(tag)
        self.tag, self.stat = tag, model.statistics
        self.sens = sens
        self.now = 0
        self.sent = []                # numbers the tag has sent
        hx = lambda s: list(bytes.fromhex(s))
        self.head = dict(p=list(p), sens=0, epc=hx(tag.epc), tid=hx(tag.tid), user=hx(tag.user_mem))
        self.ev = []
        self.steps = 0

    def trace(self):
        return dict(self.head, ev=self.ev)

    def state(self):
        s = std()
        tag = self.tag
        fl = [0 if tag.sessions[x] in (None, s.InventoryFlag.A) else 1
              for x in (s.Session.S0, s.Session.S1, s.Session.S2, s.Session.S3)]
        return dict(st=tag.state.name, slot=int(tag.slot_counter), q1=-1 if tag.q is None else int(tag.q), fl=fl)

    def power(self, gap, pw):
        """pw: dBm or None"""
        self.now += gap
        self.tag.set_power(self.now * self.tick, pw)
        # what counts is on which side of the sensitivity it lies
        e = dict(op="power", tm=self.now, pw=-9999 if pw is None else (pw > self.sens) - (pw < self.sens),
                 pon=0 if self.tag.power is None else 1, **self.state())
        self.push(e)
        return e

    def span(self, ptrs, cnts):
        """where to read"""
        if not self.big:
            return dict(ptr=self.rng.choice(ptrs), cnt=self.rng.choice(cnts))
        return dict(ptr=self.rng.choice([0, 3, 64, 127, 128, 129, self.rng.randrange(0, 300)]),
                    cnt=self.rng.choice([1, 5, 63, 64, 65, 127, 128, 255, self.rng.randrange(1, 256)]))

    def near(self, up):
        """just above (below) the sensitivity"""
        import numpy as np
        return float(np.nextafter(self.sens, 100 if up else -100))

    def push(self, e):
        e.setdefault("r", "none")
        self.ev.append(e)
        self.steps += 1

    def command(self, op, **a):
        s, rng = std(), self.rng
        ses = [s.Session.S0, s.Session.S1, s.Session.S2, s.Session.S3]
        enc = {1: s.TagEncoding.FM0, 2: s.TagEncoding.M2, 4: s.TagEncoding.M4, 8: s.TagEncoding.M8}
        sync = s.ReaderSync(tari=6.25e-6, rtcal=18.75e-6, delim=12.5e-6)
        e = dict(op=op, **a)
        pre = sync
        if op == "query":
            dr = rng.choice([8, 64])
            trcal = rng.choice([33500, 50000, 68000, 75000, 100000])
            pre = s.ReaderPreamble(6.25e-6, 18.75e-6, trcal * 1e-9, 12.5e-6)
            cmd = s.Query(s.DivideRatio.DR_8 if dr == 8 else s.DivideRatio.DR_643, enc[a["m"]], bool(a["ext"]),
                          [s.SelFlag.ALL, s.SelFlag.SEL, s.SelFlag.NOT_SEL][a["selc"]], ses[a["s"]],
                          [s.InventoryFlag.A, s.InventoryFlag.B][a["target"]], a["q"])
            e.update(dr=dr, trcal=trcal)
        elif op == "qrep":
            cmd = s.QueryRep(ses[a["s"]])
        elif op == "qadj":
            cmd = s.QueryAdjust(ses[a["s"]], a["u"])
        elif op == "ack":
            cmd = s.Ack(a["rn"])
        elif op == "reqrn":
            cmd = s.ReqRN(a["rn"])
        else:
            cmd = s.Read([None, s.MemoryBank.EPC, s.MemoryBank.TID, s.MemoryBank.USER][a["bank"]], a["ptr"], a["cnt"], a["rn"])
        rec = self.stat.get_tag_record(self.tag)
        n0 = rec.num_qadjust_attained
        f = self.tag.receive(s.ReaderFrame(pre, cmd))
        e.update(self.state(), adj=rec.num_qadjust_attained - n0)
        if op == "query":
            e["pri"] = round(1e12 / self.tag.blf)
        e.update(self.reply(f))
        self.push(e)
        return e

    def reply(self, f):
        s = std()
        if f is None:
            return dict(r="none")
        y = f.reply
        kind = {s.QueryReply: "rn", s.AckReply: "epc", s.ReqRNReply: "handle", s.ReadReply: "data"}.get(type(y), "other")
        d = dict(r=kind, rm=f.preamble.encoding.symbols_per_bit, rext=int(f.preamble.extended), data=[], rrn=-1)
        if kind in ("rn", "handle"):
            d["rrn"] = int(y.rn)
            self.sent.append(int(y.rn))
        if kind == "epc":
            d["data"] = list(y.epc)
        if kind == "data":
            d["data"], d["rrn"] = list(y.memory), int(y.rn)
        return d

    def number(self, ok):
        """the number last sent, or a wrong one (stale, neighbouring, zero, random)"""
        last = self.sent[-1] if self.sent else None
        if ok and last is not None:
            return last
        rng = self.rng
        pool = [0, 1, 0xFFFF, rng.randrange(0x10000), rng.randrange(0x10000)] + self.sent[-4:]
        if last is not None:
            pool += [last ^ 1, last ^ 0x8000, (last + 1) % 0x10000]
        pool = [x for x in pool if x != last]
        return rng.choice(pool)

    # -- as driver of the state graph of TagMC (gap 1 keeps, gap 3 loses the flags; limit 2)
    def apply(self, a):
        rng, op = self.rng, a["op"]
        if op == "off":
            self.power(rng.choice([0, 1, 4, 50]), rng.choice([None, self.sens - 0.1, self.near(False), -60]))
            return self.ev[-1]
        if op == "on":
            # the gap is counted from the power-off
            if rng.random() < 0.5:       # too weak meanwhile: must stay off
                self.power(a["gap"] - 1, rng.choice([None, self.sens - 0.1, self.near(False), self.sens]))
                return self.power(1, rng.choice([self.sens + 0.1, self.near(True), 0]))
            gap = 0 if a["gap"] == 1 and rng.random() < .3 else a["gap"]
            return self.power(gap, rng.choice([self.sens + 0.1, self.near(True), 0]))
        if op == "query":
            return self.command("query", s=a["s"], target=a["target"], selc=rng.choice([0, 2]) if a["sel"] else 1,
                                q=a["q"], m=rng.choice([1, 2, 4, 8]), ext=rng.randrange(2))
        if op == "qrep":
            return self.command("qrep", s=a["s"])
        if op == "qadj":
            return self.command("qadj", s=a["s"], u=a["u"])
        if op == "read":
            return self.command("read", rn=self.number(a["ok"]), bank=rng.choice([1, 2, 3]), **self.span([0, 0, 1, 2, 5], [1, 2, 4, 6]))
        return self.command(op, rn=self.number(a["ok"]))

    def match(self, a, t, e):
        return (t["st"] == e["st"] and a.get("reply", "none") == e["r"] and
                (t["st"] != "ARBITRATE" or t["slot"] < 0 or t["slot"] == e["slot"]) and
                (t["st"] not in ("ARBITRATE", "REPLY") or t["q"] == e["q1"]) and
                list(t["fl"].values() if isinstance(t["fl"], dict) else t["fl"]) == e["fl"])


def label(a):
    return tuple(sorted((k, v) for k, v in a.items() if k != "reply"))


def random_tag(d, rng, n):
    """Long random history, biased towards rounds that get somewhere."""
    d.power(0, 0)
    q, s = rng.choice([0, 1, 2, 3]), rng.randrange(4)
    while d.steps < n:
        x = rng.random()
        st = d.tag.state.name
        if st == "OFF":
            d.power(rng.choice([0, 1, 2, 3, 8, 20, 50]), rng.choice([None, d.sens - 0.5, d.near(False), d.near(True), d.sens + 0.5, 0]))
            continue
        if x < 0.04:
            d.power(rng.choice([0, 1, 2, 9, 60]), rng.choice([None, d.sens - 1, d.near(False), d.near(True), d.sens + 1, d.sens, 3, 0, 0.0]))
        elif st in ("REPLY", "ACKNOWLEDGED", "SECURED") and x < 0.6:
            op = {"REPLY": "ack", "ACKNOWLEDGED": "reqrn", "SECURED": "read"}[st]
            if rng.random() < 0.2:
                op = rng.choice(["ack", "reqrn", "read"])
            a = dict(rn=d.number(rng.random() < 0.8))
            if op == "read":
                a.update(bank=rng.choice([1, 2, 3]), **d.span([0, 0, 1, 2, 3, 7], [1, 2, 3, 4, 8]))
            d.command(op, **a)
        elif x < 0.25 or st == "READY" and x < 0.7:
            if rng.random() < 0.5:
                q, s = rng.choice([0, 0, 1, 1, 2, 3, 4, 8, 15]), rng.randrange(4)
            fl = d.state()["fl"][s]
            d.command("query", s=s, target=fl if rng.random() < 0.8 else 1 - fl, selc=rng.choice([0, 0, 0, 2, 2, 1]), q=q,
                      m=rng.choice([1, 2, 4, 8]), ext=rng.randrange(2))
        elif x < 0.8:
            d.command("qrep", s=s if rng.random() < 0.85 else rng.randrange(4))
        else:
            d.command("qadj", s=s if rng.random() < 0.85 else rng.randrange(4), u=rng.choice([-1, 0, 1, 1, -1]))


@contextlib.contextmanager
def special_numbers(rng):
    """Now and then the number a tag draws is an unusual one."""
    import numpy as np
    real = np.random.randint

    def randint(low, high=None, *a, **k):
        v = real(low, high, *a, **k)
        return rng.choice([0, 0, 0xFFFF, 1]) if (low, high) == (0, 0x10000) and rng.random() < .2 else v
    np.random.randint = randint
    try:
        yield
    finally:
        np.random.randint = real


def extremes(d, rng):
    """Q at the ends of its range."""
    d.power(0, 0)
    for q, u in ((15, 1), (0, -1), (14, 1), (1, -1)):
        for s in range(2):
            fl = d.state()["fl"][s]
            d.command("query", s=s, target=fl, selc=0, q=q, m=1, ext=0)
            for _ in range(5):
                d.command("qadj", s=s, u=u)
                if d.tag.state.name == "REPLY" and rng.random() < 0.5:
                    d.command("ack", rn=d.number(False))


def draws(kernel, model, rng, n):
    """Tallies of the random choices of many tags."""
    import numpy as np
    tally = []
    d = TagDrv(kernel, model, rng, (8, 8, 8))
    d.power(0, 0)

    def bits(xs, w, name):
        for b in range(w):
            tally.append(dict(op="binomial", clause=name, k=sum(x >> b & 1 for x in xs), n=len(xs), a=8))
    for q in (1, 2, 3, 4, 5, 9, 15):
        for op in ("query", "qadj"):
            slots = []
            for _ in range(n):
                if op == "query":
                    d.command("query", s=0, target=0, selc=0, q=q, m=1, ext=0)
                else:
                    d.command("query", s=0, target=0, selc=0, q=q - 1, m=1, ext=0)
                    d.command("qadj", s=0, u=1)
                slots.append(d.ev[-1]["slot"])
            slots = [x if 0 <= x < 2 ** q else 0 for x in slots]
            bits(slots, q, "C14.slots_uniform" if op == "query" else "C20.new_slot_uniform")
            if q <= 4:
                for k in range(2 ** q):
                    tally.append(dict(op="binomial", clause="C14.slots_uniform" if op == "query" else "C20.new_slot_uniform",
                                      k=slots.count(k), n=n, a=16 >> q))
    rns = {"rn": [], "handle": []}
    for _ in range(n):
        d.command("query", s=0, target=d.state()["fl"][0], selc=0, q=0, m=1, ext=0)
        for op in ("ack", "reqrn", "reqrn"):
            if d.ev[-1]["r"] in rns:
                rns[d.ev[-1]["r"]].append(d.ev[-1]["rrn"])
            d.command(op, rn=d.number(True))
    for k, xs in rns.items():
        bits(xs, 16, "C14.number_random")
        bits([a ^ b for a, b in zip(xs, xs[1:])], 16, "C14.number_fresh")
        tally.append(dict(op="atleast", clause="C14.number_fresh", k=len(set(xs)), n=len(xs) * 9 // 10))
    # handle against the number sent before it
    both = [e["rrn"] for e in d.ev if e["r"] in rns]
    bits([a ^ b for a, b in zip(both, both[1:])], 16, "C14.number_fresh")
    return tally, d


def tag(chk: Check):
    import numpy as np
    rng = random.Random(chk.seed * 17 + int(chk.pid[1:]))
    np.random.seed(chk.seed * 100 + int(chk.pid[1:]))
    if chk.pid in ("C14", "C20"):
        chk.model_check("TagMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            f"CONSTANTS Ss={{0,1}} Qs={{0,1}} MaxQ={chk.n(2, 3)} Targets={{0,1}} Sels={{TRUE,FALSE}} Updn={{0,1,2}} MaxAcks=2\n"
            "CONSTRAINT Bound\nINVARIANTS TypeOK ReplyOnlyInSlotZero SilentWhenOff Waiting\n"
            "PROPERTIES EpcOnlyFromReply HandleAfterAck DataAfterHandle Joins\n", "TagMC/C14", workers=8)
    if chk.pid == "C15":
        chk.model_check("TagMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            "CONSTANTS Ss={0,1} Qs={0,1} MaxQ=2 Targets={0,1} Sels={TRUE,FALSE} Updn={0,1,2} MaxAcks=2\n"
            "CONSTRAINT Bound\nINVARIANTS InvertsOncePerAck\nPROPERTIES FlagChangesOnlyWhenDue FlagDoesChange\n", "TagMC/C15", workers=8)
        chk.model_check("TagMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            f"CONSTANTS Ss={{0,1{chk.n('', ',2')}}} Qs={{0,1}} MaxQ=2 Targets={{0}} Sels={{TRUE}} Updn={{0,1,2}} MaxAcks=3\n"
            "CONSTRAINT Bound\nINVARIANTS S0OncePerPowerUp OncePerPersistence\nPROPERTIES NeverAckedAgain\n",
            "TagMC/constant target", workers=8)
    r = chk.graph("TagMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        f"CONSTANTS Ss={chk.n('{0,1}', '{0,1,2}')} Qs={{0,1,2}} MaxQ=2 Targets={{0,1}} Sels={{TRUE,FALSE}} Updn={{0,1,2}} MaxAcks=0\n"
        "VIEW View\nACTION_CONSTRAINT EmitEdge\nINVARIANT EmitState\n", "TagMC/graph")
    on = Online(Graph(r.json), label, rng)
    traces, tally = [], []

    def go(kernel, model):
        def new(_):
            d = TagDrv(kernel, model, rng, (2, 2, 2), rng.choice([-18, -10]))
            traces.append(d)
            return d
        on.run(new, chk.n(400, 2000), chk.n(60000, 400000))
        for _ in range(chk.n(40, 400)):
            d = TagDrv(kernel, model, rng, [rng.choice([0, 1, 4, 16, 40]) for _ in range(3)], rng.choice([-18, -9.5, -3]))
            traces.append(d)
            with special_numbers(rng):
                random_tag(d, rng, chk.n(150, 600))
        for _ in range(chk.n(4, 20)):
            d = TagDrv(kernel, model, rng, (4, 4, 4))
            traces.append(d)
            extremes(d, rng)
        t, d = draws(kernel, model, rng, chk.n(400, 4000))
        tally.extend(t)
        traces.append(d)
    try:
        with deadline(chk.n(120, 700)):
            in_simulation(go)
    except AssertionError:
        raise
    except Exception as e:                                            # noqa: BLE001
        from harness.core import Mismatch
        if isinstance(e, Mismatch):
            raise
        last = traces[-1].ev[-3:] if traces else None
        chk.violation(f"{chk.pid}.unexpected_{type(e).__name__}", dict(error=repr(e), last=last))
    chk.parts.append(dict(kind="replay_on_code", spec="TagMC", state_input_pairs=on.total,
                          exercised=on.total - len(on.todo), outcomes=len(on.outcomes), graph_edges=len(on.g.edges)))
    chk.sample(dict(trace=dict(traces[0].head, ev=traces[0].ev[:6])))
    ts = [d.trace() for d in traces if d.ev]
    chk.validate("TagTrace", ts, workers=8)
    if tally:
        chk.validate("TallyTrace", [dict(ev=tally)])
    if chk.pid in ("C14", "C15"):
        from harness import system_check
        system_check.whole_runs(chk)
    chk.assumptions += ["all 16 random bits of numbers and all slots are compared with their frequencies (8 standard deviations)",
                        "commands act on one tag at a time; several tags together are covered by C18 to C22"]


class ReaderDrv:
    """A real reader, its inputs and what it did."""
    def __init__(self, kernel, model, rng, st=None, **over):
        s = std()
        from pysim.models.rfid.objects import Reader
        self.rng, self.steps, self.ev = rng, 0, []
        r = Reader(kernel)
        c = st["c"] if st else dict(switch=rng.random() < .6, rpt=rng.choice([1, 1, 2, 3, 5]), target=rng.randrange(2),
                                    tid=rng.random() < .5, words=rng.choice([1, 2, 4, 6, 32]), q=rng.choice([0, 1, 2, 3, 4]))
        c = dict(c, **over)
        tari = rng.choice([6250, 12500, 25000])
        rtcal = tari * rng.choice([10, 11, 12]) // 4
        trcal = max(rng.choice([17400, 24000, 25100, 28000, 33400, 50100, 67000, 75500, 83300, 120000, 160000, 199000]), rtcal)
        self.enc = {1: s.TagEncoding.FM0, 2: s.TagEncoding.M2, 4: s.TagEncoding.M4, 8: s.TagEncoding.M8}
        self.ses = [s.Session.S0, s.Session.S1, s.Session.S2, s.Session.S3]
        self.sels = [s.SelFlag.ALL, s.SelFlag.SEL, s.SelFlag.NOT_SEL]
        h = dict(tari=tari, rtcal=rtcal, trcal=trcal, delim=12500, dr=rng.choice([8, 64]), m=rng.choice([1, 2, 4, 8]),
                 ext=rng.randrange(2), selc=rng.randrange(3), s=rng.randrange(4), temp=rng.randrange(2),
                 switch=int(c["switch"]), rpt=c["rpt"], target=c["target"], tid=int(c["tid"]), words=c["words"], q=c["q"])
        self.head = h
        r.tari, r.rtcal, r.trcal, r.delim = tari * 1e-9, rtcal * 1e-9, trcal * 1e-9, 12.5e-6
        r.dr = s.DivideRatio.DR_8 if h["dr"] == 8 else s.DivideRatio.DR_643
        r.tag_encoding, r.trext, r.sel, r.session = self.enc[h["m"]], bool(h["ext"]), self.sels[h["selc"]], self.ses[h["s"]]
        r.temp = s.TempRange.EXTENDED if h["temp"] else s.TempRange.NOMINAL
        r.target = [s.InventoryFlag.A, s.InventoryFlag.B][h["target"]]
        r.target_strategy = "switch" if h["switch"] else "const"
        r.rounds_per_target, r.q = h["rpt"], h["q"]
        r.read_tid_bank, r.read_tid_words_num = bool(h["tid"]), h["words"]
        r.use_query_adjust, r.adjust_delta, r.q_fp = True, 1.0, float(h["q"])
        self.ann = []
        r.power_on_listeners.add(lambda: self.ann.append(["pon"]))
        r.power_off_listeners.add(lambda: self.ann.append(["poff"]))
        r.round_start_listeners.add(lambda k: self.ann.append(["rs", k]))
        r.round_finish_listeners.add(lambda k: self.ann.append(["rf", k]))
        r.slot_start_listeners.add(lambda k, x: self.ann.append(["ss", k, x]))
        r.slot_finish_listeners.add(lambda k, x: self.ann.append(["sf", k, x]))
        self.r = r

    def trace(self):
        return dict(self.head, ev=self.ev)

    def step(self, op, **a):
        s, r, rng = std(), self.r, self.rng
        self.ann.clear()
        e = dict(op=op, err=0, **a)
        f = None
        try:
            if op == "on":
                f = r.turn_on()
            elif op == "off":
                f = r.turn_off()
            elif op == "timeout":
                f = r.timeout()
            elif op == "adjust":
                r.q += a["u"]
                r.updn = a["u"]
                f = r.set_state(type(r).State.QAdjust)
            else:
                y = {"rn": lambda: s.QueryReply(a["rn"]), "epc": lambda: s.AckReply("AB" * 12),
                     "handle": lambda: s.ReqRNReply(a["rn"]), "data": lambda: s.ReadReply("CD" * 4, a["rn"])}[a["k"]]()
                f = r.receive(s.TagFrame(s.create_tag_preamble(r.tag_encoding, r.trext), y))
        except Exception as x:                                        # noqa: BLE001
            e["err"], e["what"] = 1, repr(x)
        e.update(st=str(r.state), ann=[list(x) for x in self.ann], pw=0 if r.power is None else 1, cmd=dict(op="none"))
        if f is not None:
            e["cmd"] = command_fields(f.command)
            enc = f.command.encode()
            p = f.preamble
            e.update(pre=int(isinstance(p, s.ReaderPreamble)), dur=round(f.duration * 1e9), n0=enc.count("0"), n1=enc.count("1"),
                     tmo=round(r.state.get_timeout(r) * 1e9))
        self.ev.append(e)
        self.steps += 1
        return e

    def apply(self, a):
        rng = self.rng
        if a["op"] == "reply":
            return self.step("reply", k=a["k"], rn=rng.choice([0, 0xFFFF, rng.randrange(0x10000), rng.randrange(0x10000)]))
        if a["op"] == "adjust":
            return self.step("adjust", u=a["u"])
        return self.step(a["op"])

    def match(self, a, t, e):
        return bool(a["err"]) == bool(e["err"]) and (t["r"]["st"] == e["st"] or e["err"]) and a["cmd"]["op"] == e["cmd"]["op"]


def command_fields(c):
    s = std()
    ses = [s.Session.S0, s.Session.S1, s.Session.S2, s.Session.S3]
    if isinstance(c, s.Query):
        return dict(op="query", dr=8 if c.dr is s.DivideRatio.DR_8 else 64, m=c.m.symbols_per_bit, ext=int(bool(c.trext)),
                    sel=[s.SelFlag.ALL, s.SelFlag.SEL, s.SelFlag.NOT_SEL].index(c.sel), s=ses.index(c.session),
                    target=[s.InventoryFlag.A, s.InventoryFlag.B].index(c.target), q=int(c.q))
    if isinstance(c, s.QueryRep):
        return dict(op="qrep", s=ses.index(c.session))
    if isinstance(c, s.QueryAdjust):
        return dict(op="qadj", s=ses.index(c.session), u=int(c.updn))
    if isinstance(c, s.Ack):
        return dict(op="ack", rn=int(c.rn))
    if isinstance(c, s.ReqRN):
        return dict(op="reqrn", rn=int(c.rn))
    if isinstance(c, s.Read):
        banks = [s.MemoryBank.RESERVED, s.MemoryBank.EPC, s.MemoryBank.TID, s.MemoryBank.USER]
        return dict(op="read", rn=int(c.rn), bank=banks.index(c.bank), ptr=int(c.word_ptr), cnt=int(c.word_count))
    return dict(op="other")


def rlabel(a):
    return (a["op"], a.get("k"), a.get("u"))


def long_round(d, rng, n):
    """A round of many slots, answered here and there, and the start of the next one."""
    d.step("on")
    for _ in range(n + 3):
        d.step("timeout")
        if rng.random() < .003 and str(d.r.state) == "QREP":
            d.step("reply", k="rn", rn=rng.randrange(0x10000))


def random_reader(d, rng, n):
    d.step("on")
    while d.steps < n:
        st = str(d.r.state)
        x = rng.random()
        if st == "OFF":
            if rng.random() < .2:
                d.step("reply", k=rng.choice(["rn", "epc", "handle", "data"]), rn=rng.randrange(0x10000))
            else:
                d.step(rng.choice(["on", "timeout"]))
        elif x < .01:
            d.step("off")
        elif x < .03 and st in ("QUERY", "QREP"):
            u = rng.choice([-1, 1])
            if 0 <= d.r.q + u <= 6:
                d.step("adjust", u=u)
        elif x < .55:
            d.step("timeout")
        else:
            k = {"QUERY": "rn", "QREP": "rn", "QADJUST": "rn", "ACK": "epc", "REQRN": "handle", "READ": "data"}[st]
            if d.step("reply", k=k, rn=rng.randrange(0x10000))["err"]:
                return
    st = str(d.r.state)
    d.step("reply", k=rng.choice([k for k in ["rn", "epc", "handle", "data"]]), rn=5)


def reader(chk: Check):
    rng = random.Random(chk.seed * 19 + int(chk.pid[1:]))
    chk.model_check("ReaderMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        f"CONSTANTS Cfgs={{1,2,3,4,5}} Qs={{0,1,2}} MaxRound={chk.n(4, 7)} Ghost=TRUE\nCONSTRAINT Bound\n"
        + ("INVARIANTS Announced OpenSlotIsCurrent\nPROPERTIES FullRounds AddressesTheReplier\n" if chk.pid == "C16"
           else "INVARIANTS Targets\n"), "ReaderMC/" + chk.pid, workers=8)
    r = chk.graph("ReaderMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        f"CONSTANTS Cfgs={{1,2,3,4,5}} Qs={chk.n('{0,1}', '{0,1,2,3}')} MaxRound=99999 Ghost=FALSE\n"
        "CONSTRAINT Bound\nVIEW View\nACTION_CONSTRAINT EmitEdge\nINVARIANT EmitState\n", "ReaderMC/graph")
    on = Online(Graph(r.json), rlabel, rng)
    ds = []

    def go(kernel, model):
        def new(st):
            ds.append(ReaderDrv(kernel, model, rng, st))
            return ds[-1]
        on.run(new, chk.n(300, 1000), chk.n(60000, 400000))
        for _ in range(chk.n(40, 400)):
            ds.append(ReaderDrv(kernel, model, rng))
            random_reader(ds[-1], rng, chk.n(200, 1000))
        if chk.pid == "C16":
            for q in chk.n((7, 10, 13), (7, 9, 11, 12, 14, 15)):
                ds.append(ReaderDrv(kernel, model, rng, q=q))
                long_round(ds[-1], rng, 2 ** q)
        if chk.pid == "C17":
            for rpt in (40, 129, 300, 1025):
                ds.append(ReaderDrv(kernel, model, rng, q=0, rpt=rpt, switch=True))
                long_round(ds[-1], rng, 2 * rpt + 3)
    with deadline(chk.n(120, 700)):
        in_simulation(go)
    chk.parts.append(dict(kind="replay_on_code", spec="ReaderMC", state_input_pairs=on.total,
                          exercised=on.total - len(on.todo), outcomes=len(on.outcomes), graph_edges=len(on.g.edges)))
    ts = [d.trace() for d in ds if d.ev]
    chk.sample(dict(trace=dict(ds[-1].head, ev=ds[-1].ev[:5])))
    chk.validate("ReaderTrace", ts, workers=8)
    if chk.pid in ("C16", "C17"):
        from harness import system_check
        system_check.whole_runs(chk)
