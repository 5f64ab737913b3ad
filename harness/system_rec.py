"""Records whole runs of the RFID model, one entry per event, through its public objects."""
import contextlib, io, logging
from harness.fsm_check import command_fields, std
from harness.observe import after_events

BIG = 1_000_000_000


class StopRun(Exception):
    pass


def ns(x):
    return max(-BIG, min(BIG, round(x * 1e9)))


def milli(x):
    return BIG if x == float("inf") else -BIG if x != x or x == -float("inf") else max(-BIG, min(BIG, round(x * 1000)))


class Recorder:
    """One run.  cfg: overrides of Settings; opt: kw of create_model, ber, G (generation interval), ..."""
    def __init__(self, cfg, limit=None, ber=None, bias=0.0, rnbias=None, uneven=False, max_steps=1500, gmax=None, direction=None,
                 gaps=None):
        self.cfg, self.limit, self.ber, self.bias, self.max_steps = cfg, limit, ber, bias, max_steps
        self.rnbias, self.uneven = bias / 4 if rnbias is None else rnbias, uneven
        self.gmax, self.direction, self.gaps = gmax, direction, gaps
        self.ev, self.acts, self.rx, self.ids, self.frames = [], [], [], {}, {}
        self.tx, self.ntx, self.last_pos, self.nh = None, 0, {}, 0
        self.known_tags, self.crash, self.cut, self.m = [], None, False, None

    # -- building --------------------------------------------------------
    def build(self):
        from pysim.models.rfid import configurator
        st = configurator.Settings()
        base = dict(tari=6.25e-6, speed=40.0, initial_distance_to_reader=3.0, travel_distance=6.0, update_interval=5e-3,
                    reader_power_on_duration=50e-3, reader_power_off_duration=10e-3, q=2, num_tags=6, adjust_delta=0.5,
                    generation_interval=(lambda: 0.03,), use_query_adjust=False, tid_word_size=4, use_doppler=False)
        base.update(self.cfg)
        if self.gaps:                       # the interval between tags varies with time
            period, gs = self.gaps
            base["generation_interval"] = (lambda: gs[int(self.clock() / period) % len(gs)],)
        for k, v in base.items():
            setattr(st, k, v)
        self.st = st
        with contextlib.redirect_stdout(io.StringIO()):
            m = configurator.create_model(st)
        self.m = m
        if self.ber is not None:
            m.medium.estimate_reader_rx_ber = lambda *a, **k: self.ber
        r = m.reader
        s = std()
        per = r.power_control_mode is type(r).PowerControlMode.PERIODIC
        g = m.generators[0]
        if self.gmax is not None:
            g.max_tags_generated = self.gmax
        if self.direction is not None:
            import numpy as np
            g.direction = np.array(self.direction)
        self.gen = base["generation_interval"]
        d = [float(x) for x in g.direction]
        norm = sum(x * x for x in d) ** .5
        vel = [round(g.velocity * 1e6 * x / norm) for x in d]
        if self.uneven:                     # every other tag has a longer EPC
            create = g.create_tag

            def uneven(model):
                t = create(model)
                if g.num_tags_generated % 2:
                    t.epc += "5A" * 16
                return t
            g.create_tag = uneven
        self.head = dict(tari=ns(r.tari), rtcal=ns(r.rtcal), trcal=ns(r.trcal), delim=ns(r.delim),
            dr=8 if r.dr is s.DivideRatio.DR_8 else 64, m=r.tag_encoding.symbols_per_bit, ext=int(bool(r.trext)),
            temp=int(r.temp is s.TempRange.EXTENDED), selc=[s.SelFlag.ALL, s.SelFlag.SEL, s.SelFlag.NOT_SEL].index(r.sel),
            s=[s.Session.S0, s.Session.S1, s.Session.S2, s.Session.S3].index(r.session),
            switch=int(r.target_strategy == "switch"), rpt=r.rounds_per_target,
            target=[s.InventoryFlag.A, s.InventoryFlag.B].index(r.target), tid=int(bool(r.read_tid_bank)),
            words=r.read_tid_words_num, q=r.q, qfp=milli(r.q_fp), delta=milli(r.adjust_delta), adj=int(bool(r.use_query_adjust)),
            periodic=int(per), ton=ns(r.power_on_duration) if per else BIG, toff=ns(r.power_off_duration) if per else BIG,
            upd=ns(m.update_interval), gap0=self.gap(), num=m.max_tags_num,
            gmax=BIG if g.max_tags_generated < 0 else g.max_tags_generated,
            p=[ns(g.s1_persistence), ns(g.s2_persistence), ns(g.s3_persistence)],
            life=ns(st.travel_distance / st.speed), vm=[x // 1000 for x in vel], vu=[x % 1000 for x in vel], p0=[round(x * 1e6) for x in g.pos0], epcbits=0 if self.uneven else st.epc_bitlen, tidbits=st.tid_bitlen,
            ptx=milli(r.max_power), budget=milli(st.reader_antenna_gain + st.tag_antenna_gain + st.reader_cable_loss),
            lossless=int(self.ber == 0.0))
        return m

    def clock(self):
        k = self.m.reader.kernel if self.m is not None else None
        return 0.0 if k is None else k.time

    def gap(self):
        """the interval between tags that is in force now"""
        fn, *a = self.gen
        return ns(fn(*a))

    # -- observing -------------------------------------------------------
    def tid(self, tag):
        return self.ids.setdefault(id(tag), len(self.ids) + 1)

    def tag_state(self, t):
        s = std()
        fl = [0 if t.sessions[x] in (None, s.InventoryFlag.A) else 1
              for x in (s.Session.S0, s.Session.S1, s.Session.S2, s.Session.S3)]
        return dict(st=t.state.name, slot=int(t.slot_counter), q1=-1 if t.q is None else int(t.q), fl=fl,
                    pon=0 if t.power is None else 1)

    def reply(self, f):
        s = std()
        if f is None:
            return dict(r="none", rrn=-1, epc="", mem="", n=0)
        y = f.reply
        kind = {s.QueryReply: "rn", s.AckReply: "epc", s.ReqRNReply: "handle", s.ReadReply: "data"}.get(type(y), "other")
        return dict(r=kind, rrn=int(y.rn) if hasattr(y, "rn") else -1, n=int(y.bitlen),
                    epc=bytes(y.epc).hex().upper() if kind == "epc" else "",
                    mem=bytes(y.memory).hex().upper() if kind == "data" else "")

    @contextlib.contextmanager
    def watching(self):
        from pysim.models.rfid.objects import Reader, Tag
        o = Tag.receive, Tag.set_power, Reader.receive
        me = self

        def receive(tag, frame, *a, **k):
            rec = me.m.statistics.get_tag_record(tag)
            n0 = rec.num_qadjust_attained if rec else 0
            f = o[0](tag, frame, *a, **k)
            n1 = rec.num_qadjust_attained if rec else 0
            me.acts.append(dict(k="h", id=me.tid(tag), cmd=frame.command, adj=n1 - n0, **me.reply(f), **me.tag_state(tag)))
            if f is not None:
                me.frames[id(f)] = f
            return f

        def set_power(tag, time, power, *a, **k):
            r = o[1](tag, time, power, *a, **k)
            pls = []
            if power is not None and me.m.reader.power is not None:
                cur = tag.antenna.pos
                for p in (cur, me.last_pos.get(id(tag), cur)):
                    tag.antenna.pos = p
                    pls.append(milli(me.m.medium.get_forward_path_loss(me.m.reader, tag, time)))
                tag.antenna.pos = cur
                if max(abs(x) for x in pls + [milli(power)]) == BIG:        # in a null of an antenna
                    pls = []
            me.acts.append(dict(k="p", id=me.tid(tag), cmp=-1 if power is None or power < tag.sensitivity
                                else 0 if power == tag.sensitivity else 1,
                                none=int(power is None), pw=0 if power is None else milli(power), pls=pls, **me.tag_state(tag)))
            return r

        def reader_receive(reader, frame, *a, **k):
            me.rx.append(me.reply(frame))
            return o[2](reader, frame, *a, **k)
        Tag.receive, Tag.set_power, Reader.receive = receive, set_power, reader_receive
        # any draw is allowed; a biased one makes collisions and coincidences frequent
        import numpy as np
        randint = np.random.randint

        def biased(low, high=None, *a, **k):
            x = randint(low, high, *a, **k)
            lo, hi = (0, low) if high is None else (low, high)
            if a or k or np.random.random_sample() >= (me.bias if hi - lo < 0x10000 else me.rnbias):
                return x
            return lo
        if self.bias or self.rnbias:
            np.random.randint = biased
        try:
            yield
        finally:
            np.random.randint = randint
            Tag.receive, Tag.set_power, Reader.receive = o

    def rec_of(self, r, closed=False):
        x = list(r.inventory_history)
        if r.tag_read_record is not None and not closed:
            x.append(r.tag_read_record)
        return [[int(i.round_index), int(bool(i.read_tid))] for i in x]

    def tag_snap(self, t):
        rec = self.m.statistics.get_tag_record(t)
        self.last_pos[id(t)] = t.pos.copy()
        return dict(id=self.tid(t), st=t.state.name, pon=0 if t.power is None else 1, upd=ns(t.last_pos_update),
                    pos=[round(x * 1e6) for x in t.pos],
                    rec=self.rec_of(rec) if rec else [[-1, -1]], rounds=int(rec.num_rounds_attained) if rec else -1,
                    nadj=int(rec.num_qadjust_attained) if rec else -1)

    def step(self, sim, fn, args):
        m, r = self.m, self.m.reader
        t = m.transaction
        new = t is not None and t is not self.tx
        if new:
            self.ntx += 1
        e = dict(tm=ns(sim.time), gap=self.gap(), on=int(str(r.state) != "OFF"), pw=int(r.power is not None), rst=str(r.state), q=int(r.q),
                 qfp=milli(r.q_fp), rnd=-1 if r.inventory_round is None else int(r.inventory_round.index),
                 ntx=0 if t is None else self.ntx, new=int(new))
        if new:
            f = t.command
            enc = f.command.encode()
            e["tx"] = dict(cmd=command_fields(f.command), pre=int(isinstance(f.preamble, std().ReaderPreamble)),
                n0=enc.count("0"), n1=enc.count("1"), start=ns(t.start_time), cdur=ns(t.command_duration), dur=ns(t.duration),
                cend=ns(t.command_end_time), fin=ns(t.finish_time), rstart=-1 if t.reply_start_time is None else ns(t.reply_start_time),
                rend=-1 if t.reply_end_time is None else ns(t.reply_end_time), rdur=-1 if t.reply_duration is None else ns(t.reply_duration),
                replies=[dict(id=self.tid(a), d=ns(y.get_duration(a.blf)), **self.reply(y)) for a, y in t.replies])
        for a in self.acts:
            if a["k"] == "h":
                a["same"] = int(t is not None and a.pop("cmd") is t.command.command)
                a.pop("cmd", None)
        self.tx = t
        hist = m.statistics.tags_history
        e.update(acts=self.acts, rx=self.rx, tags=[self.tag_snap(x) for x in m.tags], made=int(m.statistics.num_tags_created),
                 gone=int(m.num_tags_simulated), nh=len(hist),
                 left=[dict(id=self.tid(h.tag), rec=self.rec_of(h, True), rounds=int(h.num_rounds_attained), nadj=int(h.num_qadjust_attained))
                       for h in hist[self.nh:]],
                 born=[dict(id=self.tid(x), n=int(x.tag_id), epc=x.epc, tid=x.tid) for x in m.tags if not any(x is y for y in self.known_tags)])
        for x in m.tags:
            if not any(x is y for y in self.known_tags):
                self.known_tags.append(x)        # also keeps it alive: ids stay distinct
        if len(hist) > self.nh:
            # figures asked for while tags still come and go: what they say then is judged nowhere, what they say at the end is
            for ask in ("inventory_probability", "read_tid_probability", "average_rounds_per_tag", "average_changing_q"):
                try:
                    getattr(m.statistics, ask)()
                except Exception:
                    pass
        self.nh = len(hist)
        self.acts, self.rx = [], []
        self.ev.append(e)
        if len(self.ev) >= self.max_steps or sim.time > 0.95:
            self.cut = True
            sim.stop("enough")

    def run(self):
        from pysim.models.rfid import configurator
        from pysim.sim.logger import ModelLoggerConfig
        logging.lastResort = logging.NullHandler()
        m = self.build()
        full = False
        with self.watching(), after_events(self.step), contextlib.redirect_stdout(io.StringIO()):
            try:
                configurator.run_model(m, ModelLoggerConfig(), max_sim_time=self.limit)
            except Exception as x:                                    # noqa: BLE001
                from harness.core import Mismatch
                if isinstance(x, Mismatch):
                    raise
                import traceback
                tb = traceback.extract_tb(x.__traceback__)
                self.crash = f"{type(x).__name__}: {x} at {tb[-1].name}:{tb[-1].lineno}"
        if self.ev and not self.crash:
            s, last = m.statistics, self.ev[-1]
            full = self.limit is None and not self.cut
            res = dict(full=int(full), ip=-1, tp=-1, ar=-1, qs=[])
            if s.tags_history:
                def num(f, k):
                    try:
                        return round(f() * k)
                    except Exception:                                 # noqa: BLE001
                        return -7
                res.update(ip=num(s.inventory_probability, 1e6), tp=num(s.read_tid_probability, 1e6),
                           ar=num(s.average_rounds_per_tag, 1e5), qs=[int(x) for x in s.average_changing_q()])
            last["end"] = res
        return self

    def trace(self):
        return dict(self.head, ev=self.ev)
