"""C25: settings and explicit arguments against Config."""
import contextlib, io, random, time
import numpy as np
from harness.core import Check, deadline


def canon(v):
    if v is None or isinstance(v, (bool, np.bool_)):
        return str(v)
    if isinstance(v, (list, tuple, np.ndarray)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, (int, float, np.integer, np.floating)):
        return f"{float(v) + 0.0:.10g}"
    return getattr(v, "name", None) if isinstance(getattr(v, "name", None), str) else str(v)


PLAIN = ("num_tags update_interval collect_power_statistics tari encoding delim temp session target sel dr trext target_strategy "
         "rounds_per_target reader_power reader_power_on_duration reader_power_off_duration reader_noise tid_word_size "
         "reader_always_start_with_first_antenna reader_antenna_switching_interval q use_query_adjust adjust_delta reader_antenna_x "
         "reader_antenna_z reader_antenna_direction reader_antenna_gain reader_cable_loss ber_distribution ground_reflection_type frequency "
         "permittivity conductivity polarization_loss use_doppler tag_antenna_x tag_antenna_z initial_distance_to_reader speed "
         "tag_antenna_direction travel_distance epc_bitlen tag_antenna_gain tag_modulation_loss tag_sensitivity s1_persistence "
         "s2_persistence s3_persistence read_tid_bank reader_switch_power q_fp").split()


def s_record(s):
    r = {f: canon(getattr(s, f)) for f in PLAIN}
    fn, *a = s.generation_interval
    r["generation_interval"] = canon(fn(*a))
    r["n"] = dict(tari=round(s.tari * 1e9), rm=round(s.rtcal_tari_mul * 8), tm=round(s.trcal_rtcal_mul * 8), words=s.tid_word_size)
    return r


def m_record(m):
    r, g, a, d = m.reader, m.generators[0], m.reader.antenna, m.medium
    o = {"model.max_tags_num": m.max_tags_num, "model.update_interval": m.update_interval,
         "model.use_power_statistics": m.statistics.use_power_statistics,
         "antenna.x": a.pos[0], "antenna.z": a.pos[2], "antenna.direction": a.direction_theta, "antenna.gain": a.gain,
         "antenna.cable_loss": a.cable_loss, "generator.x": g.pos0[0], "generator.z": g.pos0[2], "generator.start": -g.pos0[1],
         "generator.velocity": g.velocity, "generator.direction": g.tag_antenna_direction, "generator.travel_distance": g.travel_distance,
         "generator.epc_bitlen": g.epc_bitlen, "generator.max_tags": g.max_tags_generated, "generator.antenna_gain": g.antenna_gain,
         "generator.modulation_loss": g.modulation_loss, "generator.sensitivity": g.sensitivity, "generator.s1": g.s1_persistence,
         "generator.s2": g.s2_persistence, "generator.s3": g.s3_persistence, "generator.interval": g.interval}
    for f in ("tari tag_encoding delim temp session target sel dr trext target_strategy rounds_per_target max_power power_on_duration "
              "power_off_duration noise read_tid_words_num always_start_with_first_antenna antenna_switch_interval q use_query_adjust adjust_delta").split():
        o["reader." + f] = getattr(r, f)
    for f in "ber_distribution ground_reflection_type frequency permittivity conductivity polarization_loss use_doppler".split():
        o["medium." + f] = getattr(d, f)
    o = {k: canon(v) for k, v in o.items()}
    p = r.power_control_mode
    o.update(n=dict(rtcal=round(r.rtcal * 8e9), trcal=round(r.trcal * 64e9), tid_bitlen=int(g.tid_bitlen)), read_tid_bank=canon(r.read_tid_bank),
             power_control="PERIODIC" if p is type(r).PowerControlMode.PERIODIC else "ALWAYS_ON" if p is type(r).PowerControlMode.ALWAYS_ON else str(p),
             q_fp=canon(r.q_fp), one=len(m.generators) == 1 and r.num_antennas == 1 and bool(np.all(np.asarray(g.direction) == [0, 1, 0]))
             and float(a.pos[1]) == 0.0)
    return o


def value(rng, f):
    from pysim.models.rfid import epcstd as std
    e = dict(encoding=std.TagEncoding, temp=std.TempRange, session=std.Session, target=std.InventoryFlag, sel=std.SelFlag, dr=std.DivideRatio)
    if f in e:
        return rng.choice(list(e[f]))
    if f in ("collect_power_statistics", "trext", "reader_always_start_with_first_antenna", "use_query_adjust", "use_doppler", "read_tid_bank", "reader_switch_power"):
        return rng.random() < .5
    if f == "num_tags" and rng.random() < .1:
        return 0
    if f in ("num_tags", "rounds_per_target"):
        return rng.randrange(1, 50)
    if f == "tid_word_size":
        return rng.choice([0, 1, 4, 8, 64])
    if f == "q":
        return rng.randrange(16)
    if f == "q_fp":
        return rng.choice([None, 0, 0.0, 3.25, 7])
    if f == "tari":
        return rng.randrange(6250, 25001) * 1e-9
    if f in ("rtcal_tari_mul", "trcal_rtcal_mul"):
        return rng.randrange(9, 25) / 8
    if f == "epc_bitlen":
        return rng.choice([32, 96, 128])
    if f == "target_strategy":
        return rng.choice(["switch", "const"])
    if f == "ber_distribution":
        return rng.choice(["rayleigh", "awgn"])
    if f == "ground_reflection_type":
        return rng.choice(["reflection", "const"])
    if f.endswith("_direction"):
        return np.asarray([rng.randrange(-3, 4), rng.randrange(-3, 4), rng.choice([-1, 1, 2])])
    if f == "generation_interval":
        x, y = rng.randrange(1, 100) / 8, rng.randrange(1, 100) / 8
        return rng.choice([(lambda: x,), (lambda a: a + 1, x), (lambda a, b: a - b, x, y)])
    if f in ("reader_noise", "tag_sensitivity", "tag_modulation_loss", "polarization_loss", "reader_cable_loss"):
        return rng.choice([0, 0.0, -0.5]) if rng.random() < .25 else -rng.randrange(0, 900) / 10
    if rng.random() < .15 and f in ("initial_distance_to_reader", "tag_antenna_x", "tag_antenna_z", "reader_antenna_x", "reader_antenna_z", "reader_power",
                                    "tag_antenna_gain", "reader_antenna_gain", "adjust_delta"):
        return -rng.randrange(1, 400) / 16
    return rng.choice([0, 0.0]) if rng.random() < .2 else rng.randrange(1, 4000) / 16


ARGS = dict(speed="speed", encoding="encoding", tari="tari", tid_word_size="tid_word_size", reader_offset="reader_antenna_x",
            tag_offset="tag_antenna_x", altitude="reader_antenna_z", power="reader_power", num_tags="num_tags",
            useadjust="use_query_adjust", delta="adjust_delta")
FIELDS = PLAIN + ["rtcal_tari_mul", "trcal_rtcal_mul", "generation_interval"]


def history(rng, steps):
    from pysim.models.rfid import configurator as cf
    ss, ms, ev = [], [], []

    def look(**e):
        ev.append(dict(e, st=[s_record(s) for s in ss], mo=[m_record(m) for m in ms]))

    def settings():
        ch = {f: value(rng, f) for f in FIELDS if rng.random() < rng.choice([.1, .5, 1])}
        s = cf.Settings(**ch)
        ss.append(s)
        want = s_record(s)
        want.update({f: canon(v) for f, v in ch.items() if f in PLAIN})
        look(op="settings", o=len(ss), v=want)
    settings()
    for _ in range(steps):
        x = rng.random()
        if x < .1 and len(ss) < 3:
            settings()
        elif x < .25:
            o = rng.randrange(len(ss))
            f = rng.choice(FIELDS)
            v = value(rng, f)
            setattr(ss[o], f, v)
            r = s_record(ss[o])
            if f in ("rtcal_tari_mul", "trcal_rtcal_mul"):
                f = "tari"
            look(op="set", o=o + 1, f=f, v=r[f], n=r["n"])
        elif x < .55 and len(ms) < 4:
            o = rng.randrange(len(ss))
            how = rng.random()
            fresh = how < .05 and len(ss) < 4
            if fresh:                   # no settings given: the defaults
                ss.append(cf.Settings())
                o = len(ss) - 1
                look(op="settings", o=o + 1, v=s_record(ss[-1]))
            k = {a: 0 if a == "num_tags" and rng.random() < .2 else value(rng, f) for a, f in ARGS.items() if rng.random() < (0 if how < .2 else .15 if how < .6 else 1 if how > .9 else .5)}
            # the effective Tari has whole nanoseconds, words a size a tag can hold
            with contextlib.redirect_stdout(io.StringIO()):
                m = cf.create_model(None, **k) if fresh else cf.create_model(ss[o], **k) if rng.random() < .7 else cf.create_model(settings=ss[o], verbose=rng.random() < .5, **k)
            ms.append(m)
            n = {}
            if "tari" in k:
                n["tari"] = round(k["tari"] * 1e9)
            if "tid_word_size" in k:
                n["words"] = k["tid_word_size"]
            look(op="build", o=o + 1, k=dict({a: canon(v) for a, v in k.items()}, n=n))
        elif x < .7 and ms:
            j = rng.randrange(len(ms))
            m = ms[j]
            m2 = m.generators[0]
            t = m2.create_tag(m)
            g = {"tag.x": t.pos[0], "tag.z": t.pos[2], "tag.start": -t.pos[1], "tag.velocity": t.velocity, "tag.direction": t.antenna.direction_theta,
                 "tag.gain": t.antenna.gain, "tag.modulation_loss": t.modulation_loss, "tag.sensitivity": t.sensitivity,
                 "tag.s1": t.s1_persistence, "tag.s2": t.s2_persistence, "tag.s3": t.s3_persistence, "tag.epc_bits": len(t.epc) * 4}
            from pysim.models.rfid import epcstd as std
            link = all(t.persistence(s) == getattr(t, f"s{s.index}_persistence") for s in std.Session if s.index)
            look(op="tag", j=j + 1, g={a: canon(v) for a, v in g.items()}, tidbits=len(t.tid) * 4, link=bool(link))
        elif x < .8 and ms:
            lim(rng, look, rng.choice(ms))
        else:
            short_run(rng.choice(ss), rng)
            look(op="run")
    return dict(ev=ev)


def short_run(s, rng):
    """A further model of the same settings is built and run for a moment; nobody else notices."""
    from pysim.models.rfid import configurator as cf
    from pysim.sim.logger import ModelLoggerConfig
    with contextlib.redirect_stdout(io.StringIO()), deadline(60):
        m = cf.create_model(s, tari=12.5e-6, tid_word_size=4, num_tags=3, speed=10.0, power=30.0)
        m.update_interval = 0.01
        try:
            cf.run_model(m, ModelLoggerConfig(), max_num_events=200)
        except Exception:                                            # noqa: BLE001
            pass            # such settings need not make a working system; what counts is that nothing else changes


def lim(rng, look, m):
    """What run_model is told reaches the kernel."""
    from pysim.models.rfid import configurator as cf
    from pysim.sim.logger import ModelLoggerConfig
    n = [0, 0.0]
    kind = rng.choice(["none", "real", "sim", "num"])

    def start(kernel):
        n[1] = kernel.context is m

        def tick(kernel):
            n[0] += 1
            if kind == "real":
                time.sleep(0.01)
            if n[0] < 100:
                kernel.schedule(0.125, tick)
        kernel.schedule(0.125, tick)
    kw = dict(none={}, real=dict(max_real_time=0.05), sim=dict(max_sim_time=rng.choice([0, 0.0]) if rng.random() < .15 else rng.randrange(1, 60) / 8 + 0.0625),
              num=dict(max_num_events=0 if rng.random() < .15 else rng.randrange(2, 60)))[kind]
    old = cf.handlers.start_simulation
    cf.handlers.start_simulation = start
    try:
        with contextlib.redirect_stdout(io.StringIO()), deadline(60):
            cf.run_model(m, ModelLoggerConfig(), **kw)
    finally:
        cf.handlers.start_simulation = old
    look(op="limits", kind=kind, n=n[0], ctx=bool(n[1]), given=dict(none=0, real=0, sim=int(8 * kw.get("max_sim_time", 0)), num=kw.get("max_num_events", 0))[kind])


def c25(chk: Check):
    rng = random.Random(chk.seed * 31 + 25)
    chk.model_check("ConfigMC", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Most = {chk.n(2, 11)}\nINVARIANTS Unique Precedence NothingElse OneMeaning\n", "ConfigMC", workers=8)
    tr = [history(rng, 14) for _ in range(chk.n(60, 600))]
    chk.sample(dict(trace=[{k: v for k, v in e.items() if k in ("op", "o", "k", "f", "v")} for e in tr[0]["ev"][:4]]))
    chk.validate("ConfigTrace", tr)
