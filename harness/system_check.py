"""C18-C22: whole runs of the RFID model, every event decided by SystemTrace."""
import random
from harness.core import Check, Mismatch, deadline
from harness.fsm_check import std, tag, reader
from harness.system_rec import Recorder
from harness import steer
from harness.observe import measure

TAB = {8: [24750, 25250, 30938, 49500, 75000, 202000], 64: [33633, 66033, 67367, 82467, 84133, 131967, 198000, 227250]}


def link(rng):
    """Settings of a legal link, away from the borders of the tolerance tables."""
    while True:
        tari = rng.choice([6.25e-6, 12.5e-6, 18.75e-6, 25e-6])
        rm, tm = rng.choice([2.5, 2.75, 3.0]), rng.choice([1.1, 1.5, 2.0, 2.5, 2.9, 3.0])
        dr = rng.choice([8, 64])
        trcal = tari * rm * tm * 1e9
        if 17.2e3 < trcal < 225e3 and all(abs(x - round(x)) < 1e-6 for x in (tari * rm * 1e9, trcal)) and all(abs(trcal - b) > 3 for b in TAB[dr]):
            break
    s = std()
    return dict(tari=tari, rtcal_tari_mul=rm, trcal_rtcal_mul=tm, dr=s.DivideRatio.DR_8 if dr == 8 else s.DivideRatio.DR_643,
                temp=rng.choice([s.TempRange.NOMINAL, s.TempRange.EXTENDED]), trext=rng.random() < .5,
                encoding=rng.choice([s.TagEncoding.FM0, s.TagEncoding.FM0, s.TagEncoding.M2, s.TagEncoding.M4, s.TagEncoding.M8]))


def scenario(rng, pid):
    s = std()
    ss = [s.Session.S0, s.Session.S1, s.Session.S2, s.Session.S3]
    c = dict(q=rng.choice([0, 1, 1, 2, 2, 3]), session=rng.choice(ss), read_tid_bank=rng.random() < .6,
             tid_word_size=rng.choice([1, 2, 4, 6]), target_strategy=rng.choice(["const", "switch", "switch", "switch"]),
             rounds_per_target=rng.choice([1, 1, 2, 3]), reader_switch_power=rng.random() < .85,
             sel=rng.choice([s.SelFlag.ALL, s.SelFlag.ALL, s.SelFlag.NOT_SEL]), use_doppler=rng.random() < .5,
             target=rng.choice([s.InventoryFlag.A, s.InventoryFlag.A, s.InventoryFlag.A, s.InventoryFlag.B]),
             reader_power_on_duration=rng.choice([20e-3, 50e-3, 77e-3]), reader_power_off_duration=rng.choice([3e-3, 10e-3, 25e-3]),
             update_interval=rng.choice([2e-3, 5e-3, 7e-3]))
    for k in (1, 2, 3):
        c[f"s{k}_persistence"] = rng.choice([0.0, 6e-3, 40e-3, 2.0])
    gen, travel, speed = rng.choice([(.01, 6.0, 40.0), (.005, 3.0, 100.0), (.008, 4.0, 25.0), (.006, 0.8, 40.0), (.003, 2.0, 50.0)])
    c.update(generation_interval=(lambda: gen,), travel_distance=travel, initial_distance_to_reader=travel / 2, speed=speed,
             num_tags=rng.choice([3, 6, 10, 14]))
    if rng.random() < (.9 if pid == "C19" else .4):
        c.update(link(rng))
        c.update(epc_bitlen=rng.choice([96, 64, 128, 24, 32]))
    if pid == "C20" or rng.random() < .25:
        c.update(use_query_adjust=True, adjust_delta=rng.choice([.1, .25, .3, .5, .75, 1.0]), q=rng.choice([0, 1, 2, 3, 4, 6]))
    if pid == "C20":
        x = rng.random()
        if x < .15:
            c.update(q=rng.choice([14, 15]), adjust_delta=rng.choice([.5, 1.0]))
        elif x < .3:
            c["q_fp"] = c["q"] + rng.choice([-1.5, -.75, .25, .75, 1.25, 2.5])
            c["q_fp"] = min(15.0, max(0.0, c["q_fp"]))
        elif x < .4:
            c.update(use_query_adjust=False)
        if rng.random() < .6:
            g2 = rng.choice([.002, .004])
            c.update(generation_interval=(lambda: g2,), num_tags=rng.choice([10, 16, 24]), q=min(c["q"], 15))
    if rng.random() < (.6 if pid == "C22" else .25):
        # tags fade in and out within the field
        c.update(initial_distance_to_reader=rng.choice([8.0, 12.0]), travel_distance=rng.choice([16.0, 24.0]), speed=rng.choice([80.0, 200.0]),
                 reader_power=rng.choice([22.0, 25.0, 28.0]), tag_sensitivity=rng.choice([-18.0, -15.0]))
    kw = dict(ber=rng.choice([None, None, 0.0, 0.0, 0.001, 0.01, 0.05]), bias=rng.choice([0.0, 0.0, 0.3, 0.8]))
    if rng.random() < (.5 if pid == "C21" else .1):
        kw["direction"] = rng.choice([[0, 3, 0], [0, .5, 0], [1.0, 2.0, 0], [.3, .4, 0], [0, 1, .25], [-.01, .02, .005], [-.6, -.8, 0]])
    if rng.random() < (.4 if pid == "C21" else .1):
        kw["gaps"] = rng.choice([.0503, .0211, .0107]), [rng.choice([.003, .004, .0055, .009, .012, .02]) for _ in range(3)]
    if rng.random() < (.3 if pid == "C21" else 0):
        kw["gmax"] = rng.choice([c["num_tags"] + 3, c["num_tags"] * 2, -1, max(1, c["num_tags"] - 2)])
    return c, kw


def describe(c):
    return {k: (str(v) if not isinstance(v, (int, float, str)) else v) for k, v in c.items()}


def crowd(rng, **k):
    """many tags in one place: collisions, also when slots are plenty"""
    return dict(dict(generation_interval=(lambda: .001,), num_tags=12, travel_distance=4.0, initial_distance_to_reader=2.0, speed=50.0,
                update_interval=5e-3), **k)


def reception(chk, rng):
    """Frequencies of reception at a bit error rate that lets half of the replies of n bits through."""
    out = []
    for kind, n, epc in (("rn", 16, 96), ("epc", 128, 96), ("epc", 1056, 1024)):
        got = tot = 0
        for _ in range(chk.n(2, 8) * (1 if n < 1000 else 4)):
            # the tags answer every Query (q = 0) with a constant target and never turn their flag when the EPC is lost
            r = Recorder(dict(q=0, target_strategy="switch", num_tags=1, generation_interval=(lambda: .001,), speed=1.0,
                              travel_distance=2.0, initial_distance_to_reader=1.0, update_interval=0.05, reader_switch_power=False,
                              encoding=std().TagEncoding.FM0, read_tid_bank=False, epc_bitlen=epc), ber=1 - 0.5 ** (1 / n), max_steps=1500).run()
            tx = None
            for e in r.ev:
                if tx and e["new"] and len(tx["replies"]) == 1 and tx["replies"][0]["r"] == kind:
                    if tx["replies"][0]["n"] != n:
                        chk.violation("C18.reply_length", dict(kind=kind, bits=tx["replies"][0]["n"]))
                    tot += 1
                    got += bool(e["rx"])
                if e["new"]:
                    tx = e["tx"]
        out.append(dict(op="binomial", clause="C18.reception_probability", k=got, n=tot, a=8))
        out.append(dict(op="atleast", clause="C18.reception_probability", k=tot, n=100))
    return out


def runs(chk, rng, n, pid):
    import numpy as np
    s = std()
    todo = [scenario(rng, pid) for _ in range(n)]
    if pid in ("C18", "C19", "C21"):
        todo += [(crowd(rng, q=q), dict(ber=0.0)) for q in (0, 1, 2)]
        todo += [(crowd(rng, q=1, speed=400.0, travel_distance=2.0, num_tags=40, read_tid_bank=True), dict(ber=b)) for b in (0.0, .002)]
    if pid == "C21":                    # a generator that makes no tag at all, and one that makes a single one
        todo += [(dict(num_tags=3), dict(gmax=k)) for k in (0, 1)]
        # a geometry in whole numbers
        todo += [(dict(num_tags=3, initial_distance_to_reader=3, travel_distance=6, tag_antenna_x=5, tag_antenna_z=0, speed=40), {})]
    if pid == "C22":                    # 0 dBm is a power like any other
        todo += [(dict(reader_power=0.0, tag_sensitivity=-60.0, num_tags=3), {})]
    if pid in ("C18", "C19"):
        todo += [(crowd(rng, q=q), dict(ber=0.0, bias=.7, rnbias=.9, uneven=True)) for q in (0, 1)]
    if pid == "C20":
        todo += [(crowd(rng, q=q, use_query_adjust=True, adjust_delta=d, num_tags=m), dict(ber=0.0))
                 for q, d, m in ((0, .5, 12), (0, 1.0, 12), (1, .3, 20), (15, 1.0, 2), (13, 1.0, 1))]
        todo += [(crowd(rng, q=q, use_query_adjust=True, adjust_delta=d, num_tags=12), dict(ber=0.0, bias=0.9)) for q, d in ((12, 1.0), (13, .5), (14, .75), (15, 1.0))]
        todo += [(crowd(rng, q=q, use_query_adjust=True, adjust_delta=d, num_tags=6, generation_interval=(lambda: 1e-4,),
                        reader_power_on_duration=.0015, reader_power_off_duration=.001, target_strategy="const"), dict(bias=.9, ber=0.0))
                 for q, d in ((12, .1), (13, .5), (14, .25), (14, .1), (15, .1))]
        todo += [(dict(q=15, use_query_adjust=True, adjust_delta=1.0, generation_interval=(lambda: .001,), num_tags=3), {})]
        # steps that would leave 0 .. 15: down from the last slot counts, up among crowds
        todo += [(dict(q=q, q_fp=f, adjust_delta=d, use_query_adjust=True, num_tags=3), dict(ber=0.0))
                 for q, f, d in ((1, .6, .9), (1, .7, 1.0), (2, 1.55, .95), (1, 1.3, .7), (1, .55, .6), (3, 2.6, .9))]
        todo += [(crowd(rng, q=q, q_fp=f, adjust_delta=d, use_query_adjust=True), dict(ber=0.0, bias=.9))
                 for q, f, d in ((14, 14.4, .9), (14, 14.45, .6), (13, 13.4, .95), (14, 13.6, .8))]
    if pid == "C22":
        todo += [(dict(reader_power_off_duration=.02, s1_persistence=p, session=s.Session.S1, generation_interval=(lambda: .013,)), dict(ber=0.0))
                 for p in (.01, 1.0)]
    traces = []
    for k, (c, kw) in enumerate(todo):
        np.random.seed(rng.randrange(2 ** 31))
        r = Recorder(c, max_steps=chk.n(900, 3000), **kw)
        try:
            with deadline(chk.n(40, 120), "run_ends"):
                r.run()
        except Mismatch as x:
            chk.violation(x.clause, dict(config=describe(c), events=len(r.ev), last=r.ev[-1:]))
            continue
        if r.crash:
            chk.violation(f"{chk.pid}.run_does_not_crash", dict(config=describe(c), error=r.crash, last=r.ev[-1:]))
        if r.ev:
            t = r.trace()
            t["config"] = str(describe(c))
            traces.append(t)
    return traces


def generator(chk, rng):
    """Identifiers of many tags of one generator, also past the point where the suffix is used up."""
    import contextlib, io
    from pysim.models.rfid import configurator
    out = []
    for epc, words, n in ((96, 4, 300), (20, 2, 40), (24, 1, 600), (28, 1, 20), (32, 2, 70000), (16, 2, 5), (128, 3, chk.n(700, 9000)),
                          (rng.choice([40, 64, 88]), rng.choice([2, 5, 7]), rng.randrange(200, 500))):
        with contextlib.redirect_stdout(io.StringIO()):
            m = configurator.create_model(tid_word_size=words, epc_bitlen=epc)
        m.generators[0].epc_bitlen = epc
        tags = []
        for k in range(n if epc != 96 else 66100):      # of the longest row only both ends are looked at
            t = m.generators[0].create_tag(m)
            if epc != 96 or k < 400 or k > 65500:
                tags.append(t)
        out.append(dict(epcbits=epc, tidbits=16 * words, prefix=16,
                        epcs=[t.epc for t in tags], tids=[t.tid for t in tags], ids=[int(t.tag_id) for t in tags]))
    chk.parts.append(dict(kind="generated_identifiers", generators=len(out), tags=sum(len(x["epcs"]) for x in out)))
    return out


def multitude(rng, num, real):
    """Records of very many tags and the figures made of them: of a run with short visits, or filled in one by one."""
    import contextlib, io, logging
    from pysim.models.rfid import configurator
    from pysim.sim.logger import ModelLoggerConfig
    logging.lastResort = logging.NullHandler()
    st = configurator.Settings()
    for k, v in dict(tari=6.25e-6, update_interval=2e-3, q=2, use_query_adjust=rng.random() < .5, adjust_delta=.8, tid_word_size=2,
                     reader_power_on_duration=1.0, reader_power_off_duration=.01, num_tags=num, speed=rng.choice([90.0, 150.0]),
                     initial_distance_to_reader=1.5, travel_distance=3.0, generation_interval=(lambda: .011,)).items():
        setattr(st, k, v)
    with contextlib.redirect_stdout(io.StringIO()):
        m = configurator.create_model(st)
        s, made = m.statistics, 0
        if real:
            configurator.run_model(m, ModelLoggerConfig())
            made = num
        else:
            for _ in range(num):
                tag = m.generators[0].create_tag(m)
                rec = s.create_tag_record(tag)
                rec.num_rounds_attained, rec.num_qadjust_attained = rng.choice([0, 1, 7, 300, 40000]), rng.choice([0, 3, 255, 256, 70000])
                for k in range(rng.choice([0, 1, 2, 20])):
                    rec.new_tag_read_record(m.reader, 5 * k).read_tid = rng.random() < .3
                    rec.close_tag_read_record()
                s.close_tag_record(tag)
                made += 1
    return dict(n=made, ip=round(s.inventory_probability() * 1e6), tp=round(s.read_tid_probability() * 1e6),
                ar=round(s.average_rounds_per_tag() * 1e5), qs=[int(x) for x in s.average_changing_q()],
                recs=[dict(rounds=int(h.num_rounds_attained), nadj=int(h.num_qadjust_attained),
                           rec=[int(bool(x.read_tid)) for x in h.inventory_history]) for h in s.tags_history])


def several(rng, cut):
    """One run with two to four generators, each with tags of its own kind."""
    import contextlib, io, logging
    import numpy as np
    from pysim.models.rfid import configurator
    from pysim.models.rfid.objects import Generator
    from pysim.sim.logger import ModelLoggerConfig
    from harness.observe import after_events
    logging.lastResort = logging.NullHandler()
    ns = lambda x: round(x * 1e9)
    st = configurator.Settings()
    for k, v in dict(tari=6.25e-6, update_interval=rng.choice([2e-3, 4e-3]), q=rng.choice([1, 2]), use_query_adjust=False, tid_word_size=2,
                     reader_power_on_duration=.03, reader_power_off_duration=.004, num_tags=rng.choice([3, 7, 20]),
                     generation_interval=(lambda: .005,)).items():
        setattr(st, k, v)
    with contextlib.redirect_stdout(io.StringIO()):
        m = configurator.create_model(st)
    first, gs = m.generators[0], []
    first.max_tags_generated = rng.choice([2, 5, -1])
    for k in range(rng.choice([2, 2, 3, 4])):
        g = first if k == 0 else Generator()
        if k:
            m.generators.append(g)
            g.tag_antenna_direction = first.tag_antenna_direction
            g.max_tags_generated = rng.choice([0, 1, 3, 6, -1, -1])
        g.pos0 = np.array([rng.choice([3.0, 5.0, 6.0]), -rng.choice([1.0, 2.0, .5]), rng.choice([0.0, .5])])
        g.velocity, g.travel_distance = rng.choice([20.0, 50.0, 90.0]), rng.choice([1.0, 2.5, 4.0])
        g.direction = np.array(rng.choice([[0, 1, 0], [0, 1, 0], [0, -1, 0], [.6, .8, 0]]))
        g.epc_prefix, g.tid_prefix = "%04X" % (0xA000 + k), "%04X" % (0xB000 + k)
        g.epc_bitlen, g.tid_bitlen = rng.choice([96, 64, 32]), rng.choice([64, 32, 48])
        g.sensitivity, g.modulation_loss, g.antenna_gain = rng.choice([-18.0, -15.0, -20.5]), rng.choice([-12.0, -9.0]), rng.choice([2.0, 3.5])
        g.cable_loss = rng.choice([0.0, -1.0])
        g.s1_persistence, g.s2_persistence, g.s3_persistence = (rng.choice([.5, 1.0, 2.0, 3.0]) for _ in range(3))
        iv = rng.choice([.005, .0071, .0113, .004])
        if rng.random() < .5:
            g.set_interval(lambda x=iv: x)
        else:
            g.set_interval(lambda a, b: a * b, iv, 1.0)
        gs.append(dict(iv=ns(iv), max=10**6 if g.max_tags_generated < 0 else g.max_tags_generated, life=ns(g.travel_distance / g.velocity),
                       p0=[round(x * 1e6) for x in g.pos0], v=[round(g.velocity * 100 * float(x)) for x in g.direction], bits=g.epc_bitlen,
                       kind=[round(1000 * x) for x in (g.sensitivity, g.modulation_loss, g.antenna_gain, g.cable_loss, g.s1_persistence, g.s2_persistence,
                                                       g.s3_persistence)] + [g.tid_bitlen, k]))
    ev, known = [], []

    def snap(sim, h, args):
        born = [t for t in m.tags if not any(t is x for x in known)]
        known.extend(born)
        num = lambda t: next(k for k, x in enumerate(known) if x is t) + 1
        ev.append(dict(tm=ns(sim.time), made=int(m.statistics.num_tags_created), gone=int(m.num_tags_simulated),
                       tags=[dict(id=num(t), pos=[round(float(x) * 1e6) for x in t.pos], upd=ns(t.last_pos_update)) for t in m.tags],
                       born=[dict(id=num(t), n=int(t.tag_id), g=int(t.epc[:4], 16) - 0xA000 + 1, epc=t.epc, kind=[round(1000 * x) for x in (
                           t.sensitivity, t.modulation_loss, t.antenna.gain, t.antenna.cable_loss, t.s1_persistence, t.s2_persistence, t.s3_persistence)]
                           + [4 * len(t.tid), int(t.tid[:4], 16) - 0xB000]) for t in born]))
    with after_events(snap), deadline(60), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        configurator.run_model(m, ModelLoggerConfig(), max_sim_time=cut)
    return dict(g=gs, num=m.max_tags_num, ev=ev)


def exact_reception(tx, medium, rng):
    """The probability that a lone reply is received: the share of the draws with which it is, at a bit error rate of b / 32768."""
    import contextlib, io
    n, ber = int(tx.replies[0][1].reply.bitlen), medium.estimate_reader_rx_ber
    b = rng.choice([0, 1, 16, 128, 1024, 2048, 4096, 8192, 16384, 24576, 32767]) if rng.random() < .5 else round(32768 * (1 - rng.uniform(.05, .95) ** (1 / n)))
    medium.estimate_reader_rx_ber = lambda *a, **k: b / 32768
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m = measure(lambda: tx.received_tag_frame(medium, tx.reply_end_time)[1] is not None)
    except (AttributeError, TypeError):
        m = None
    finally:
        medium.estimate_reader_rx_ber = ber
    return [] if m is None else [dict(op="allof", clause="C18.reception_probability", x=32768 - b, n=n, v=round(m * 32768))]


def transactions(chk, rng, exact=None):
    """Single transactions with replies of any mixture of lengths, encodings and link frequencies."""
    import contextlib, io
    from pysim.models.rfid import configurator
    from pysim.models.rfid.objects import Transaction, Tag
    from harness.fsm_check import in_simulation
    s = std()
    out = []
    st = configurator.Settings()
    for k, v in link(rng).items():
        setattr(st, k, v)
    with contextlib.redirect_stdout(io.StringIO()):
        m = configurator.create_model(st)
    m.medium.estimate_reader_rx_ber = lambda *a, **k: 0.0

    def go(kernel, model):
        r = m.reader
        r.kernel = kernel
        r.turn_on()
        for _ in range(chk.n(400, 6000)):
            c = link(rng)
            r.tari, r.rtcal, r.trcal = c["tari"], c["tari"] * c["rtcal_tari_mul"], c["tari"] * c["rtcal_tari_mul"] * c["trcal_rtcal_mul"]
            r.dr, r.temp, r.delim = c["dr"], c["temp"], 12.5e-6
            n = rng.choice([1, 1, 2, 2, 3, 4, 7])
            same, reps, rec = rng.random() < .3, [], []
            d = link(rng)
            for k in range(n):
                if not same:
                    d = link(rng)
                t = m.generators[0].create_tag(m)
                t.kernel, t.last_pos_update = kernel, 0.0
                rtcal = d["tari"] * d["rtcal_tari_mul"]
                trcal = rtcal * d["trcal_rtcal_mul"]
                t.set_power(0.0, 10.0)      # a tag takes its link frequency from the Query it hears
                t.receive(s.ReaderFrame(s.ReaderPreamble(d["tari"], rtcal, trcal), s.Query(dr=d["dr"], m=d["encoding"], trext=d["trext"], q=0,
                                        sel=s.SelFlag.ALL, session=s.Session.S0, target=s.InventoryFlag.A)))
                x = rng.randrange(4)
                y = (s.QueryReply(rng.randrange(65536)) if x == 0 else s.AckReply("5AB4" * rng.randrange(1, 24)) if x == 1
                     else s.ReqRNReply(rng.randrange(65536)) if x == 2 else s.ReadReply("1234" * rng.randrange(1, 12), rng.randrange(65536)))
                reps.append((t, s.TagFrame(s.create_tag_preamble(d["encoding"], d["trext"]), y)))
                rec.append(dict(n=int(y.bitlen),
                                m=d["encoding"].symbols_per_bit, ext=int(d["trext"]), trcal=round(trcal * 1e9), dr=8 if d["dr"] is s.DivideRatio.DR_8 else 64))
            order = list(range(n))
            rng.shuffle(order)
            reps = [reps[k] for k in order]
            cmd = rng.choice([lambda: s.Query(q=rng.randrange(16)), lambda: s.QueryRep(), lambda: s.Ack(rng.randrange(65536)),
                              lambda: s.Read(s.MemoryBank.TID, 0, 4, 5, 6), lambda: s.ReqRN(1, 2)])()
            q = isinstance(cmd, s.Query)
            pre = s.ReaderPreamble(r.tari, r.rtcal, r.trcal, r.delim) if q else s.ReaderSync(r.tari, r.rtcal, r.delim)
            start = rng.choice([0.0, .25, .125, .5])
            t = Transaction(m.medium, r, s.ReaderFrame(pre, cmd), reps, start)
            with contextlib.redirect_stdout(io.StringIO()):
                got = t.received_tag_frame(m.medium, t.reply_end_time)
            if exact is not None and n == 1 and rng.random() < .3:
                exact.extend(exact_reception(t, m.medium, rng))
            enc = cmd.encode()
            ns = lambda v: round(v * 1e9)
            out.append(dict(tari=ns(r.tari), rtcal=ns(r.rtcal), trcal=ns(r.trcal), delim=12500, dr=8 if r.dr is s.DivideRatio.DR_8 else 64,
                temp=int(r.temp is s.TempRange.EXTENDED), query=int(q), n0=enc.count("0"), n1=enc.count("1"), start=ns(start),
                replies=rec, cdur=ns(t.command_duration), cend=ns(t.command_end_time), rstart=ns(t.reply_start_time), rend=ns(t.reply_end_time),
                rdur=ns(t.reply_duration), dur=ns(t.duration), fin=ns(t.finish_time),
                got=0 if got[0] is None and got[1] is None else 1 if n == 1 and got[0] is reps[0][0] and got[1] is reps[0][1] else 2))
    with deadline(chk.n(60, 300)):
        in_simulation(go)
    chk.parts.append(dict(kind="single_transactions", n=len(out), collisions=sum(len(x["replies"]) > 1 for x in out)))
    return out


def coverage(chk, traces):
    """What the recorded runs contained; nothing that matters may be missing."""
    cov = dict(runs=len(traces), events=0, commands={}, collisions=0, lone=0, lost=0, received=0, power_downs=0, departures=0,
               left_mid_transaction=0, q_moves=0, tags=0)
    for t in traces:
        tx = None
        for e in t["ev"]:
            cov["events"] += 1
            if e["on"] == 0 and tx:
                cov["power_downs"] += 1
            if tx and e["left"] and any(y["id"] in [x["id"] for x in e["left"]] for y in tx["replies"]):
                cov["left_mid_transaction"] += 1
            cov["departures"] += len(e["left"])
            cov["tags"] += len(e["born"])
            if e["new"]:
                if tx:
                    k = len(tx["replies"])
                    cov["collisions"] += k > 1
                    cov["lone"] += k == 1
                    cov["received"] += bool(e["rx"])
                    cov["lost"] += k == 1 and not e["rx"]
                op = e["tx"]["cmd"]["op"]
                cov["commands"][op] = cov["commands"].get(op, 0) + 1
                cov["q_moves"] += op == "qadj"
            tx = e["tx"] if e["new"] else tx if e["ntx"] else None
    chk.parts.append(dict(kind="system_runs", **cov))


KINDS = dict(C18=(("power", "departure", "arrival", "update"), 32), C19=(("power", "departure"), 24), C20=(("power",), 24),
             C21=(("departure", "arrival", "update"), 48), C22=(("power", "departure", "update"), 64))
STEPS = dict(C14=1500, C15=1500, C16=1500, C17=1000, C18=4000, C19=0, C20=2500, C21=0, C22=0)


def steered(chk, rng):
    """Runs along the behaviours of the composition, and events at every moment of runs."""
    ts, n = [], STEPS[chk.pid] * chk.n(1, 10)
    if n:
        kw = dict(Nums=2, Cfgs=dict(C17=(3, 4), C15=(2, 3, 6)).get(chk.pid, (1, 2, 3, 4)), Adj=chk.pid in ("C20", "C16"))
        for session in [rng.randrange(4)] if chk.quick else range(4):
            ts += steer.replay(chk, rng, n if chk.quick else n // 4, session, **kw)
    if chk.pid in KINDS:
        kinds, cuts = KINDS[chk.pid]
        ts += steer.sweep(chk, rng, kinds, chk.n(cuts, 20 * cuts), chk.n(2, 20))
    return ts


def whole_runs(chk):
    """What the checks of a single tag or reader add: the same properties inside whole runs."""
    rng = random.Random(chk.seed * 29 + int(chk.pid[1:]))
    ts = runs(chk, rng, chk.n(6, 60), chk.pid) + steered(chk, rng)
    coverage(chk, ts)
    for k in range(0, len(ts), 80):
        chk.validate("SystemTrace", ts[k:k + 80], workers=8, label="SystemTrace")


def system(chk: Check):
    rng = random.Random(chk.seed * 23 + int(chk.pid[1:]))
    if chk.pid in ("C19", "C20"):
        reader(chk)
    if chk.pid in ("C20", "C22"):
        tag(chk)
    ts = runs(chk, rng, chk.n(24, 240), chk.pid)
    if chk.pid in ("C18", "C22"):
        steer.model_check(chk)
    ts += steered(chk, rng)
    coverage(chk, ts)
    if ts:
        e = ts[0]["ev"]
        chk.sample(dict(config=ts[0]["config"], events=e[40:42]))
    for k in range(0, len(ts), 100):
        chk.validate("SystemTrace", ts[k:k + 100], workers=8, label="SystemTrace")
    if chk.pid in ("C18", "C19"):
        exact = [] if chk.pid == "C18" else None
        ev = transactions(chk, rng, exact)
        chk.validate("TransactionTrace", [dict(ev=ev[k::16]) for k in range(16)])
        if exact:
            chk.validate("TallyTrace", [dict(ev=exact)])
    if chk.pid in ("C20", "C21"):
        ev = []
        for num, real in ((chk.n(150, 900), True), (2000, False), (chk.n(257, 1100), False)):
            try:
                ev.append(multitude(rng, num, real))
            except Exception as e:                                    # noqa: BLE001
                chk.violation(f"{chk.pid}.figures_of_many_tags", dict(error=repr(e), tags=num))
        chk.parts.append(dict(kind="figures_of_many_tags", tags=[x["n"] for x in ev]))
        chk.validate("FiguresTrace", [dict(ev=[x]) for x in ev])
    if chk.pid == "C21":
        chk.validate("IdentityTrace", [dict(ev=generator(chk, rng))])
        tr = []
        for _ in range(chk.n(20, 160)):
            try:
                tr.append(several(rng, rng.choice([.05, .09])))
            except Exception as e:                                    # noqa: BLE001
                chk.violation("C21.generators_run", dict(error=repr(e)))
        chk.validate("GeneratorsTrace", tr, workers=8)
    if chk.pid == "C18":
        chk.validate("TallyTrace", [dict(ev=reception(chk, rng))])
    chk.assumptions += ["short runs (at most 0.95 s of model time) with small windows; the medium's bit error rate is replaced by a "
                        "constant in some runs", "times are compared to the nanosecond (3 to 6 ns)"]
