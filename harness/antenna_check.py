"""C29: the antennas of a reader, against Antennas."""
import contextlib, io, logging, math, random
from harness.core import Check, Graph, Mismatch, deadline
from harness.observe import after_events


def milli(x):
    return round(max(-1e6, min(1e6, x)) * 1000)


class Run:
    """One run of the whole model with several antennas; every antenna also alone in a model of its own (twin)."""
    def __init__(self, rng, n, iv, on, off, first, stats=True):
        import numpy as np
        from pysim.models.rfid import configurator
        from pysim.models.rfid.objects import Antenna
        logging.lastResort = logging.NullHandler()
        self.n, self.iv, self.rng = n, iv, rng
        base = dict(tari=6.25e-6, update_interval=rng.choice([2e-3, 3.1e-3, 5e-3]), speed=1e-4, initial_distance_to_reader=rng.choice([0.0, .5, 1.5]),
                    travel_distance=20.0, q=rng.choice([0, 1, 2]), num_tags=4, generation_interval=(lambda: rng.choice([.011, .03])),
                    use_query_adjust=False, read_tid_bank=rng.random() < .5, tid_word_size=2, use_doppler=False, reader_power_on_duration=on,
                    reader_power_off_duration=off, reader_always_start_with_first_antenna=first, reader_antenna_switching_interval=iv,
                    tag_sensitivity=-60.0, collect_power_statistics=stats, ground_reflection_type=rng.choice(["reflection", "const"]))
        base["generation_interval"] = ((lambda g: lambda: g)(rng.choice([.011, .03])),)
        places = [(5.0, 5.0), (4.0, 5.5), (5.5, 4.0), (3.0, 6.0), (6.0, 4.5)]
        rng.shuffle(places)
        ant = [dict(reader_antenna_x=places[k][0], reader_antenna_z=places[k][1], reader_antenna_gain=6.0 + 2.5 * k, reader_cable_loss=-.5 * k)
               for k in range(n)]
        self.pos = [[a["reader_antenna_x"], 0.0, a["reader_antenna_z"]] for a in ant]
        self.twins = []
        with contextlib.redirect_stdout(io.StringIO()):
            for k in range(n):
                st = configurator.Settings()
                for x, y in {**base, **ant[k]}.items():
                    setattr(st, x, y)
                m = configurator.create_model(st)
                if k == 0:
                    self.m = m
                    m2 = configurator.create_model(st)
                    self.twins.append(m2)
                else:
                    self.twins.append(m)
                    a = Antenna()
                    a.pos, a.direction_theta = np.asarray(self.pos[k]), st.reader_antenna_direction
                    a.gain, a.cable_loss = ant[k]["reader_antenna_gain"], ant[k]["reader_cable_loss"]
                    self.m.reader.attach_antenna(a)
        self.head = dict(n=n, iv=round(iv * 1e9), first=int(first))
        self.ev, self.seen, self.reads, self.pows, self.crash = [], {}, [], [], None

    def where(self, pos):
        for k, p in enumerate(self.pos):
            if max(abs(float(x) - y) for x, y in zip(pos, p)) < 1e-9:
                return k
        return -1

    def alone(self, which, tag, t):
        """power with each antenna alone"""
        return [milli(getattr(w.medium, which)(w.reader, tag, t)) for w in self.twins]

    def run(self, limit):
        import numpy as np
        from pysim.models.rfid import configurator
        from pysim.models.rfid.objects import Tag
        from pysim.sim.simulator import ModelLoggerConfig
        m, r = self.m, self.m.reader
        power = Tag.set_power
        old_rng = [False]

        def set_power(tag, time, p, *a, **k):
            if p is not None and old_rng[0]:
                self.pows.append(dict(pw=milli(p), p=self.alone("estimate_tag_rx_power", tag, time)))
            return power(tag, time, p, *a, **k)

        def snap(sim, h, args):
            if not old_rng[0]:
                old_rng[0] = True
                for w in self.twins:
                    w.reader.kernel = sim
                    w.reader.turn_on()
            t, recs, back, reads = sim.time, [], [], []
            for tag in list(m.tags):
                x = m.statistics.get_tag_record(tag)
                if x is None:
                    continue
                new = x.power_mapping[self.seen.get(id(x), 0):]
                self.seen[id(x)] = len(x.power_mapping)
                for y in new:
                    recs.append(dict(ai=int(y.reader_antenna_index), pos=self.where(y.reader_antenna_pos)))
                    if y.reader_rx_power is not None and r.power is not None and tag.power is not None and abs(y.time - t) < 1e-12:
                        back.append(dict(pw=milli(y.reader_rx_power), p=self.alone("estimate_reader_rx_power", tag, t)))
                y = x.tag_read_record
                if y is not None and not any(y is z[0] for z in self.reads) and y.reader_antenna_pos is not None:
                    self.reads.append((y, int(y.antenna_index)))
                    reads.append(dict(ai=int(y.antenna_index), pos=self.where(y.reader_antenna_pos)))
            self.ev.append(dict(tm=round(t * 1e9), on=int(r.power is not None), idx=int(r.antenna_index), n=int(r.num_antennas),
                                same=int(r.antenna is r.get_antenna(r.antenna_index) and r.antenna.index == r.antenna_index
                                         and self.where(r.antenna.pos) == r.antenna_index),
                                recs=recs[:6], back=back[:2], reads=reads, pows=self.pows[:3], kept=[]))
            self.pows = []
        Tag.set_power = set_power
        try:
            with after_events(snap), deadline(120), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                configurator.run_model(m, ModelLoggerConfig(), max_sim_time=limit)
        except Exception as x:                                        # noqa: BLE001
            self.crash = f"{type(x).__name__}: {x}"
        finally:
            Tag.set_power = power
        if self.ev:
            self.ev[-1]["kept"] = [dict(was=k, ai=int(y.antenna_index), pos=self.where(y.reader_antenna_pos)) for y, k in self.reads]
        return dict(self.head, ev=self.ev)


def replay(chk, rng):
    """every call on the antennas of a reader in every state"""
    from types import SimpleNamespace
    from pysim.models.rfid import configurator
    from pysim.models.rfid.objects import Antenna, Reader
    from harness.fsm_check import in_simulation
    import numpy as np
    r = chk.graph("AntennaObjMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT MaxN = %d\nINVARIANTS Valid EmitState\nVIEW View\n"
                  "ACTION_CONSTRAINT EmitEdge\n" % chk.n(4, 6), "AntennaObjMC/graph")
    g = Graph(r.json)
    with contextlib.redirect_stdout(io.StringIO()):
        whole = configurator.create_model(configurator.Settings())
    paths = list(g.paths(rng, max_len=40))

    def go(kernel, _):
        for start, path in paths:
            o, ants, hist = Reader(), [], []
            for k in ("tag_encoding", "power_control_mode", "max_power", "q", "target_strategy", "rounds_per_target", "target", "session", "sel"):
                if hasattr(whole.reader, k):
                    try:
                        setattr(o, k, getattr(whole.reader, k))
                    except AttributeError:
                        pass
            o.kernel = kernel
            o.always_start_with_first_antenna = g.state[start]["first"]
            try:
                for s, a, t in path:
                    hist.append(a)
                    want, op = a["r"], a["op"]
                    if op == "attach":
                        x = Antenna()
                        x.pos = np.array([1.0 + len(ants), 0.0, 1.0])
                        ants.append(x)
                        got = o.attach_antenna(x)
                        if x.index != want:
                            raise Mismatch("C29.numbered_in_order", want=want, got=x.index)
                    elif op in ("select", "get"):
                        x = o.select_next_antenna() if op == "select" else o.get_antenna(a["k"])
                        got = -1 if x is None else next((k for k, y in enumerate(ants) if y is x), -9)
                    else:
                        (o.turn_on if op == "on" else o.turn_off)()
                        got = -2
                    if got != want:
                        raise Mismatch("C29." + op, want=want, got=got)
                    z = g.state[t]
                    if (o.num_antennas, o.antenna_index) != (z["n"], z["idx"]) or (z["n"] and o.antenna is not ants[z["idx"]]):
                        raise Mismatch("C29.state", want=z, n=o.num_antennas, idx=o.antenna_index)
            except Mismatch as e:
                chk.violation(e.clause, dict(e.data, calls=hist))
            except Exception as e:                                    # noqa: BLE001
                chk.violation("C29.unexpected_" + type(e).__name__, dict(error=repr(e), calls=hist))
    in_simulation(go)
    chk.count(len(paths)) if hasattr(chk, "count") else None


def c29(chk: Check):
    rng = random.Random(chk.seed * 31 + 29)
    n = chk.n("{1, 2, 3}", "{1, 2, 3, 4}")
    chk.model_check("AntennasMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        f"CONSTANTS Ns = {n} Ivs = {chk.n('{1, 2, 3}', '{1, 2, 3, 4, 5}')} Ons = {chk.n('{1, 2, 4, 6}', '{1, 2, 3, 4, 5, 6, 7, 9}')} Offs = {{1, 2}} MaxT = {chk.n(24, 60)}\n"
        "INVARIANTS OneInForce AsScheduled OnlyWhilePowered SingleStays FirstIfAsked PhaseUses Regular\nPROPERTIES DarkKeeps InTurn Fair\n",
        "AntennasMC/properties", workers=8)
    replay(chk, rng)
    # the same configurations for real: numbers, intervals and phases in milliseconds
    todo = [(k, iv * 4e-3, on * 4e-3, off * 3e-3, f) for k in (1, 2, 3) for iv in (1, 2, 3) for on in (1, 2, 4, 6) for off in (1, 2) for f in (False, True)]
    rng.shuffle(todo)
    todo = [x for x in todo if x[0] > 1][:chk.n(40, 200)] + [x for x in todo if x[0] == 1][:3]
    for _ in range(chk.n(10, 80)):
        todo.append((rng.choice([2, 3, 4, 5]), rng.choice([.0017, .0043, .0251, .1]), rng.choice([.02, .05, .0333]), rng.choice([.003, .01]), rng.random() < .5))
    tr = []
    for k, iv, on, off, f in todo:
        x = Run(rng, k, iv, on, off, f, stats=rng.random() < .8)
        t = x.run(rng.choice([.06, .12]))
        if x.crash:
            chk.violation("C29.runs", dict(crash=x.crash, n=k, interval=iv, on=on, off=off, first=f))
        tr.append(t)
    chk.sample(dict(trace=dict(tr[0], ev=tr[0]["ev"][20:22])))
    chk.validate("AntennaTrace", tr, workers=8)
    if not any(e["reads"] for t in tr for e in t["ev"]) or not any(e["pows"] for t in tr for e in t["ev"]):
        chk.violation("C29.tags_are_read", dict(runs=len(tr)))
    chk.assumptions += ["antennas are attached before the run; no Doppler, so that a link does not depend on when the power came on"]
