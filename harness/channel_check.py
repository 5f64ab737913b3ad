"""C28: the radio channel against ChannelTrace: exact scenes, tables, links probed and recorded in running models."""
import cmath, contextlib, io, itertools, logging, math, random
from harness.core import Check, deadline
from harness.observe import after_events

NONE = -999_999_999
SNRS = [0, 1, 10, 100, 1000, 2000, 4000, 9000, 10000, 16000, 100000, 1000000, 10000000]
ANGLES = [(1000, 1.0), (866, math.cos(math.pi / 6)), (800, .8), (707, math.cos(math.pi / 4)), (600, .6), (500, .5),
          (259, math.cos(math.radians(75))), (174, math.cos(math.radians(80))), (0, 0.0), (-600, -.6), (-1000, -1.0)]


def micro(x, scale=1e6):
    """millionths; a mark for what is no number"""
    return NONE if x is None or x != x or abs(x) * scale > 9e8 else round(x * scale)


def directions():
    out = {}
    for l in (1, 3, 5, 7, 9):
        out[l] = [v for v in itertools.product(range(-l, l + 1), repeat=3) if sum(x * x for x in v) == l * l
                  and math.gcd(math.gcd(abs(v[0]), abs(v[1])), abs(v[2])) == 1]
    return out


def legs():
    """(transverse vector, {leg: hypotenuse}) with at least three choices of the leg"""
    out = []
    for y, z in itertools.product(range(0, 41), repeat=2):
        w2 = y * y + z * z
        hyp = {p: math.isqrt(p * p + w2) for p in range(0, 121) if math.isqrt(p * p + w2) ** 2 == p * p + w2}
        if w2 == 0:
            hyp = {p: p for p in range(1, 41)}
        if len(hyp) >= 2 and max(hyp) > 0:
            out.append(((y, z), hyp))
    return out


DIRS, LEGS = directions(), legs()


def scene(rng, moving):
    while True:
        (y, z), hyp = rng.choice(LEGS)
        p, s = sorted(rng.choices(list(hyp), k=2))
        if s == 0 or (s - p) % 2 or hyp[p] < 3 or hyp[s] > 130:
            continue
        near, far = (s - p) // 2, (s + p) // 2
        xa, xb = (near, far) if rng.random() < .5 else (far, near)
        if min(xa, xb) == 0:
            continue
        y, z = rng.choice([(y, z), (z, y)])
        y, z = rng.choice([y, -y]), rng.choice([z, -z])
        oy, oz = rng.randrange(-20, 21), rng.randrange(-20, 21)
        u, w = rng.choice(list(DIRS)), rng.choice(list(DIRS))
        vel = lambda: [rng.randrange(-3, 4) for _ in range(3)] if moving else [0, 0, 0]
        r = rng.choice([[-10000, 0], [10000, 0], [0, 10000], [6000, -8000], [0, 0], [rng.randrange(-7000, 7001), rng.randrange(-7000, 7001)]])
        return dict(a=[xa, oy, oz], b=[xb, oy + y, oz + z], u=list(rng.choice(DIRS[u])), lu=u, w=list(rng.choice(DIRS[w])), lw=w,
                    n=rng.choice([1, 1, 2, 3, 4]), va=vel(), vb=rng.choice([vel(), [0, 0, 0]]), r=r, d0=hyp[p], d1=hyp[s],
                    g=rng.choice([1.0, 1.0, .3, .1]), size=rng.choice([1.0, 1.0, 1.0, 1 / 64, .25, 16.0]))


MET, WALLS, PATTERNS = [], {}, {}


def given_wall(cosine, permittivity, conductivity, **kw):
    """a wall of the reflection its material says"""
    MET.append(cosine)
    return complex(permittivity, conductivity) / 1e4


def wall(r):
    def f(*a, **k):
        MET.append(k.get("cosine"))
        return complex(*r) / 1e4
    return WALLS.setdefault(tuple(r), f)


def pattern(weak):
    return PATTERNS.setdefault(weak, lambda azimuth: azimuth * weak)


def siblings(rng, c, moving, n):
    """the same scene with one thing changed: what was computed before must not be mistaken for it"""
    out = [c]
    for _ in range(n):
        o = scene(rng, moving)
        x = dict(rng.choice(out))
        for k in rng.choice([("u", "lu"), ("w", "lw"), ("n",), ("va",), ("vb",), ("r",), ("r",), ("g",), ("size",)]):
            x[k] = o[k]
        out.append(x)
    rng.shuffle(out)
    return out


def ray(ch, np, c, t, material=False):
    lam = 4.0 / c["n"]
    c = dict(c)
    weak = c.pop("g", 1.0)                              # weak antennas: the loss in decibels has to follow them far down
    unit = lam / (4 * math.pi * c["d0"]) * weak ** 2
    size = c.pop("size", 1.0)                           # the whole scene and its wavelength in other units: nothing changes
    speed = c["d0"] * c["d1"] / t * size
    V = lambda v, k=1.0: np.array(v, dtype=float) * k
    met = MET                                           # the angle at which the mirrored ray meets the wall
    met.clear()
    f, more = (given_wall, dict(permittivity=float(c["r"][0]), conductivity=float(c["r"][1]))) if material else (wall(c["r"]), {})
    rp = pattern(weak)
    call = lambda **k: ch.two_ray_pathloss(
        time=t, ground_reflection=f, wavelen=lam * size,
        tx_pos=V(c["a"], size), tx_dir_theta=V(c["u"], 1 / c["lu"]), tx_dir_phi=V([1, 0, 0]), tx_velocity=V(c["va"], speed),
        tx_rp=rp, rx_pos=V(c["b"], size), rx_dir_theta=V(c["w"], 1 / c["lw"]), rx_dir_phi=V([1, 0, 0]),
        rx_velocity=V(c["vb"], speed), rx_rp=rp, **more, **k)
    z, lg, pw = complex(call()) / unit, call(log=True), float(call(crutch=True)) / unit ** 2
    lg = 0.0 if lg == -np.inf else 10 ** (lg / 10) / unit ** 2
    # exp(-ik(d - tv)) is periodic: bring the phase out of the rounding of huge products
    cs = [x for x in met if x is not None]
    return dict(op="ray", c=c, angle=[round(float(x) * 1e6) for x in (min(cs), max(cs))] if cs else [], re=round(z.real * 1e4), im=round(z.imag * 1e4), pw=round(pw * 1e4), pwlog=round(lg * 1e4))


def tables(chk, rng, ch):
    ev = [dict(op="dipole", x=k, v=micro(float(ch.rp_dipole(azimuth=x)))) for k, x in ANGLES]
    n, last = 0, None
    while n < chk.n(300, 3000):
        c, s = rng.choice([(0, 20), (12, 16), (16, 12), (20, 0)])
        f = dict(cos=c, sin=s, re=rng.randrange(8, 41), im=rng.randrange(0, 21), pol=rng.randrange(5))
        eta = f["re"] ** 2 - f["im"] ** 2 + c * c, -2 * f["re"] * f["im"]
        if eta[0] <= 0 or s + f["re"] == 0:
            continue
        big = abs(complex(s * eta[0] / 4 + 100 * f["re"], s * eta[1] / 4 - 100 * f["im"])) ** 2
        if big > 2e8 or big < 1e5:
            continue
        n += 1
        lam = rng.choice([.125, .3486, .5])
        if last and rng.random() < .6:                  # one thing changed: polarisation, or conductivity, or wavelength
            f, lam, kind = dict(last[0]), last[1], rng.randrange(3)
            if kind == 0:
                f["pol"] = rng.randrange(5)
            else:
                same = [(x, y) for x in range(8, 41) for y in range(1, 21) if x * x - y * y == f["re"] ** 2 - f["im"] ** 2]
                if f["im"] and same:
                    x, y = rng.choice(same)
                    lam = lam * x * y / (f["re"] * f["im"]) if kind == 1 else lam
                    f.update(re=x, im=y)
            c, s = f["cos"], f["sin"]
            eta = f["re"] ** 2 - f["im"] ** 2 + c * c, -2 * f["re"] * f["im"]
            big = abs(complex(s * eta[0] / 4 + 100 * f["re"], s * eta[1] / 4 - 100 * f["im"])) ** 2
            if big > 2e8 or big < 1e5 or eta[0] <= 0:
                continue
        last = (f, lam)
        z = complex(ch.reflection(cosine=c / 20, polarization=f["pol"] / 4, permittivity=eta[0] / 400,
                                  conductivity=-eta[1] / 400 / 60 / lam, wavelen=lam))
        k = complex(ch.reflection_constant(cosine=c / 20, polarization=f["pol"] / 4, permittivity=2.0, conductivity=.1, wavelen=lam))
        ev.append(dict(op="fresnel", f=f, re=round(z.real * 1e4), im=round(z.imag * 1e4), const=abs(k + 1) < 1e-12))
    for k in range(2, 10):
        at = lambda x: round(float(ch.ber(x, distr="rayleigh")) * x * 1e6)
        ev.append(dict(op="tail", v=at(10.0 ** k), w=at(rng.uniform(1.5, 9) * 10 ** k)))
    for d in ("rayleigh", "awgn"):
        for x in SNRS:
            ch.ber(x / 1000 + rng.uniform(-.0005, .0005), distr=d)      # a value close by first
            ev.append(dict(op="berat", x=x, distr=d, v=micro(float(ch.ber(x / 1000, distr=d)))))
        for _ in range(chk.n(10, 100)):
            xs = sorted([0.0, 1e-12] + [10 ** rng.uniform(-9, 9) for _ in range(40)])
            ev.append(dict(op="berseq", v=[micro(float(ch.ber(x, distr=d)), 1e9) if x < 1e18 else 0 for x in xs]))
        for x in (0.0, 1e-12, 1e-15):
            full = float(ch.snr_full(snr=x, miller=rng.choice([1, 2, 4, 8]), symbol=1.25e-6, preamble=9.3e-6, bandwidth=1.2e6))
            ev.append(dict(op="dead", v=micro(full), ber=micro(float(ch.ber(full, distr=d)))))
    old = None
    for _ in range(chk.n(80, 600)):
        db, no = rng.randrange(-60, 61), rng.choice([-80.0, -95.5, -70.0])
        ev.append(dict(op="snr", db=db, v=round(1000 * math.log10(ch.snr(no + db, no)))))
        ev.append(dict(op="snr", db=db, v=round(1000 * math.log10(ch.snr(-60.0, -60.0 - db)))))
        new = (10 ** rng.uniform(-1, 4), rng.choice([1.2e6, .6e6]), rng.choice([1, 2, 4, 8]), rng.randrange(500, 100000),
               rng.choice([(1, 9 / math.pi ** 2), (2, 16 / math.pi ** 2), (3, 36 / math.pi ** 2), (4, 1e9)]))
        if old and rng.random() < .6:                   # one thing changed
            j = rng.randrange(5)
            new = tuple(y if h == j else x for h, (x, y) in enumerate(zip(old, new)))
        old = new
        snr, bw, m, x, (q, a) = new
        v = ch.snr_full(snr=snr, miller=m, symbol=x / 1000 / snr / bw, preamble=a / snr / bw, bandwidth=bw)
        ev.append(dict(op="full", m=m, x=x, q=q, v=round(float(v) * 1000)))
    return ev


class Link:
    """One run of the whole model; its links probed after every event, its power records collected."""
    def __init__(self, rng):
        from pysim.models.rfid import configurator, epcstd as std
        logging.lastResort = logging.NullHandler()
        self.rng, self.ev, self.seen, self.on = rng, [], {}, None
        st = self.st = configurator.Settings()
        tilt = lambda z: [rng.choice([0, 0, .3, -.4, .1]), rng.choice([0, 0, .5, -.2, .25]), z]
        import numpy as np
        far = rng.choice([3.0, 6.0, 10.0])
        self.set = dict(
            tari=6.25e-6, update_interval=rng.choice([2e-3, 5e-3, 9e-3]), speed=rng.choice([20.0, 40.0, 90.0]),
            initial_distance_to_reader=far, travel_distance=2 * far, q=rng.choice([0, 1, 2]), num_tags=rng.choice([2, 3, 4]),
            generation_interval=(lambda: .02,), use_query_adjust=False, tid_word_size=4,
            reader_power_on_duration=rng.choice([20e-3, 45e-3]), reader_power_off_duration=rng.choice([3e-3, 10e-3]),
            reader_antenna_x=rng.choice([5.0, 4.0, 2.5]), reader_antenna_z=rng.choice([5.0, 3.0]),
            tag_antenna_x=rng.choice([5.0, 3.0, 1.5]), tag_antenna_z=rng.choice([0.0, .5]),
            reader_antenna_direction=np.array(tilt(rng.choice([-1, -1, -2.5]))), tag_antenna_direction=np.array(tilt(rng.choice([1, 1, .8]))),
            reader_power=rng.choice([31.5, 28.0, 33.0, 0.0]), reader_antenna_gain=rng.choice([6.0, 8.0, 5.25]),
            reader_cable_loss=rng.choice([-2.0, -1.25, 0.0]), tag_antenna_gain=rng.choice([3.0, 2.0, -1.5]),
            tag_modulation_loss=rng.choice([-12.0, -10.5, -6.0]), tag_sensitivity=rng.choice([-18.0, -22.0, -60.0]),
            reader_noise=rng.choice([-80.0, -95.0, -70.0]), ber_distribution=rng.choice(["rayleigh", "awgn"]),
            frequency=rng.choice([860e6, 915e6, 433e6]), permittivity=rng.choice([15.0, 4.0, 7.5]), conductivity=rng.choice([.03, .1, 0.0]),
            polarization_loss=rng.choice([-3.0, -1.5, 0.0]), ground_reflection_type=rng.choice(["reflection", "const"]),
            use_doppler=rng.random() < .6, encoding=rng.choice(list(std.TagEncoding)), trext=rng.random() < .5,
            dr=rng.choice([std.DivideRatio.DR_8, std.DivideRatio.DR_643]), collect_power_statistics=rng.random() < .7)
        for k, v in self.set.items():
            setattr(st, k, v)
        with contextlib.redirect_stdout(io.StringIO()):
            self.m = configurator.create_model(st)
        g = self.m.generators[0]
        g.cable_loss = self.lt = rng.choice([0.0, -.5, -1.75])
        g.direction = np.array(rng.choice([[0, 1, 0], [0, 1, 0], [.05, 2, 0], [.3, 1, .1], [-.02, 1, .02]]))
        self.dir = np.array(g.direction, dtype=float) / np.linalg.norm(g.direction)

    def direct(self, ch, np, t, tag, back):
        """the path loss asked of the channel itself, everything taken from the settings"""
        s = self.set
        N = lambda v: np.array(v, dtype=float) / np.linalg.norm(v)
        rd = np.array([s["reader_antenna_x"], 0.0, s["reader_antenna_z"]]), N(s["reader_antenna_direction"]), np.zeros(3)
        tg = np.array(tag.antenna.pos, dtype=float), N(s["tag_antenna_direction"]), s["speed"] * self.dir
        (p, d, v), (p2, d2, v2) = (tg, rd) if back else (rd, tg)
        return ch.two_ray_pathloss(
            time=t - self.on if s["use_doppler"] else 0.0, wavelen=299792458.0 / s["frequency"],
            ground_reflection=ch.reflection if s["ground_reflection_type"] == "reflection" else ch.reflection_constant,
            tx_pos=p, tx_dir_theta=d, tx_dir_phi=np.array([1, 0, 0]), tx_velocity=v, tx_rp=ch.rp_dipole,
            rx_pos=p2, rx_dir_theta=d2, rx_dir_phi=np.array([1, 0, 0]), rx_velocity=v2, rx_rp=ch.rp_dipole, log=True,
            polarization=1.0 if back else .5, conductivity=s["conductivity"], permittivity=s["permittivity"])

    def gains(self):
        s = self.set
        return dict(gr=micro(s["reader_antenna_gain"]), gt=micro(s["tag_antenna_gain"]), lr=micro(s["reader_cable_loss"]), lt=micro(self.lt),
                    mod=micro(s["tag_modulation_loss"]))

    def probe(self, ch, np, t, tag):
        m, s, r = self.m, self.set, self.m.reader
        off = self.on is None
        prx, e = m.medium.estimate_tag_rx_power(r, tag, t), dict(op="link", off=off)
        if prx is None:
            return e
        if off:
            return dict(e, prx=0)
        fpl, tagoff = m.medium.get_forward_path_loss(r, tag, t), tag.power is None
        if not math.isfinite(prx):
            return None
        e.update(self.gains(), prx=micro(prx), ptx=micro(s["reader_power"]), fpl=micro(fpl), dfpl=micro(self.direct(ch, np, t, tag, False)),
                 pol=micro(s["polarization_loss"]), doppler=s["use_doppler"], later=micro(m.medium.get_forward_path_loss(r, tag, t + .037)),
                 tagoff=tagoff)
        snr = m.medium.estimate_reader_rx_snr(r, tag, [tag], t)
        rrx = m.medium.estimate_reader_rx_power(r, tag, t)
        e["rnone"] = rrx is None and snr == 0.0 and m.medium.estimate_reader_rx_ber(r, tag, [tag], snr) == .5
        if tagoff:
            return e
        if rrx is None or not math.isfinite(rrx) or snr <= 0:
            return None if rrx is not None else dict(e, tagoff=True, rnone=False)
        from pysim.models.rfid import epcstd as std
        raw = 10 ** ((rrx - s["reader_noise"]) / 10)
        per = s["encoding"].symbols_per_bit
        trcal = self.st.trcal
        blf = (8 if s["dr"] is std.DivideRatio.DR_8 else 64 / 3) / trcal
        # preamble of at least 10 symbols of 1 / blf: the loss of synchronisation is then below 0.1 dB
        strong = raw * 10 / blf * m.medium.bandwidth > 1e3 and abs(tag.blf / blf - 1) < 1e-9 and tag.encoding is s["encoding"]
        e.update(ttx=micro(tag.tx_power), tp=micro(tag.power), rrx=micro(rrx), bpl=micro(m.medium.get_backward_path_loss(r, tag, t)),
                 dbpl=micro(self.direct(ch, np, t, tag, True)), const=s["ground_reflection_type"] == "const", strong=bool(strong),
                 snr=micro(10 * math.log10(snr)), snr0=micro(10 * math.log10(raw * per * m.medium.bandwidth / blf)),
                 ber=micro(m.medium.estimate_reader_rx_ber(r, tag, [tag], snr), 1e9), dber=micro(float(ch.ber(snr, distr=s["ber_distribution"])), 1e9))
        return e

    def records(self, ch, np, t):
        m, s = self.m, self.set
        for tag in list(m.tags):
            h = m.statistics.get_tag_record(tag).power_mapping
            for x in h[self.seen.get(id(tag), 0):]:
                off = x.reader_rx_power in (None, -120.0, -120) and x.snr == 0
                if not off and not (math.isfinite(x.reader_rx_power) and x.snr > 0):
                    continue
                life = x.field_lifetime
                yield dict(op="rec", life=micro(life, 1e9) if life != float("inf") else NONE, want=NONE if self.on is None else micro(t - self.on, 1e9),
                           pos=bool(np.allclose(x.tag_pos, tag.antenna.pos, atol=1e-9) and np.allclose(x.reader_antenna_pos, m.reader.antenna.pos)
                                    and abs(x.time - t) < 1e-9),
                           ptx=micro(x.reader_tx_power), max=-120000000 if self.on is None else micro(s["reader_power"]), dead=tag.power is None,
                           off=off, rrx=micro(x.reader_rx_power), snr=NONE if x.snr == 0 else micro(10 * math.log10(x.snr)), ber=micro(x.ber, 1e9),
                           ttx=micro(x.tag_tx_power), trx=micro(x.tag_rx_power), bpl=micro(x.tag_reader_pl), fpl=micro(x.reader_tag_pl),
                           dfpl=NONE if self.on is None else micro(self.direct(ch, np, t, tag, False)), dbpl=NONE if self.on is None else micro(
                               self.direct(ch, np, t, tag, True)), pol=micro(s["polarization_loss"]), ant=x.reader_antenna_index == 0,
                           dber=micro(float(ch.ber(x.snr, distr=s["ber_distribution"])), 1e9), **self.gains())
            self.seen[id(tag)] = len(h)

    def run(self, limit):
        import numpy as np
        from pysim.models.rfid import channel as ch, configurator
        from pysim.sim.simulator import ModelLoggerConfig
        skip = [0]

        def snap(sim, h, args):
            t, r = sim.time, self.m.reader
            if r.power is None:
                self.on = None
            elif self.on is None:
                self.on = t
            if self.set["collect_power_statistics"]:
                self.ev += self.records(ch, np, t)
            skip[0] += 1
            if skip[0] % 7 == 0 and self.m.tags:
                e = self.probe(ch, np, t, self.rng.choice(list(self.m.tags)))
                if e:
                    self.ev.append(e)
        with after_events(snap), deadline(120), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            configurator.run_model(self.m, ModelLoggerConfig(), max_sim_time=limit)
        return self.ev


def c28(chk: Check):
    import numpy as np
    from pysim.models.rfid import channel as ch
    rng = random.Random(chk.seed * 13 + 28)
    for dirs, vels, ns in chk.n([("{1, 2, 5, 6}", "{0, 1}", "{1, 2}"), ("{3, 4, 7, 8}", "{2, 4}", "{1}")],
                                [("{1, 2, 3, 4, 5, 6, 7, 8}", "{0, 1, 4}", "{1, 2, 3}"), ("{1, 2, 3, 4, 5, 6, 7, 8}", "{0, 1, 2, 3, 4}", "{1}")]):
        chk.model_check("ChannelMC", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Dirs = {dirs} Vels = {vels} Ns = {ns} Sides = {{1, 2, 3, 4}}\n"
                        "INVARIANTS Exact Reciprocal AnywhereAlongTheWall EitherHand AnyTurn Passive SilentAtTheWall SilentAtTheWall2 "
                        "Relative Absorbed\n", "ChannelMC/properties", workers=8)
    tr = []

    def guarded(f, **what):
        try:
            tr.append(dict(ev=f()))
        except Exception as e:                                       # noqa: BLE001
            chk.violation("C28.unexpected_" + type(e).__name__, dict(error=repr(e), **what))
    with np.errstate(all="ignore"):
        for k in range(chk.n(20, 200)):
            cs = [scene(rng, k % 2) for _ in range(40)] + [x for _ in range(chk.n(3, 6)) for x in siblings(rng, scene(rng, k % 2), k % 2, 7)]
            guarded(lambda: [ray(ch, np, c, t, k % 3 == 0) for c in cs for t in (0.25, 2.0, 64.0)[:1 + k % 3]], kind="scenes")
        guarded(lambda: tables(chk, rng, ch), kind="tables")
    for _ in range(chk.n(24, 200)):
        x = Link(rng)
        guarded(lambda: x.run(chk.n(.4, 1.0)), kind="run", settings={k: str(v) for k, v in x.set.items()})
        if tr and tr[-1]["ev"]:
            tr[-1]["settings"] = {k: str(v) for k, v in x.set.items()}
    tr = [t for t in tr if t["ev"]]
    chk.sample(dict(scene=tr[0]["ev"][0]))
    chk.sample(dict(link=next((e for e in tr[-1]["ev"] if e["op"] == "link"), None)))
    kinds = {}
    for t in tr:
        for e in t["ev"]:
            k = e["op"] + (":off" if e.get("off") else ":tagoff" if e.get("tagoff") else "")
            kinds[k] = kinds.get(k, 0) + 1
    chk.parts.append(dict(kind="generated", events=kinds))
    chk.validate("ChannelTrace", tr, workers=8)
