"""Fourth batch of planted bugs (see plant.py): the radio channel and more."""
from seeds1 import SIM, LOG, PP, TT, RF, KERNEL, RFID
from seeds2 import RUN
O, CH = RF + 'objects.py', RF + 'channel.py'

CHANNEL = RFID + '''
from pysim.models.rfid import channel as chan

def loss(t, tx, rx, v=(0, 0, 0), refl=chan.reflection_constant, rp=chan.rp_isotropic, **kw):
    return chan.two_ray_pathloss(
        time=t, ground_reflection=refl, wavelen=0.35, tx_pos=np.array(tx), tx_dir_theta=np.array([0, 0, -1]), tx_dir_phi=None,
        tx_velocity=np.array([0, 0, 0]), tx_rp=rp, rx_pos=np.array(rx), rx_dir_theta=np.array([0, 0, 1]), rx_dir_phi=None,
        rx_velocity=np.array(v), rx_rp=rp, polarization=.5, permittivity=15., conductivity=.03, **kw)

def link():
    """A medium, a powered reader and a powered tag with antennas."""
    tag = make_tag()
    tag.direction, tag.velocity = np.array([0, 1, 0]), 10.0
    tag.pos = np.array([5.0, 1.0, 0.0])
    tag.antenna.direction_theta = np.array([0, 0, 1])
    reader = make_reader(max_power=31.5, noise=-80.0)
    reader.turn_on()
    reader.set_power(31.5)
    return objects.Medium(), reader, tag
'''

ANTENNAS = RUN + '''
from pysim.sim.simulator import Simulator

def run(n, iv, on, off, first, limit, keep=None):
    "(time, powered, antenna) after every event"
    m, go = rfid(limit=limit, reader_power_on_duration=on, reader_power_off_duration=off, reader_antenna_switching_interval=iv,
                 reader_always_start_with_first_antenna=first, speed=.001, generation_interval=(lambda: .03,), initial_distance_to_reader=.5,
                 collect_power_statistics=True)
    for k in range(1, n):
        a = objects.Antenna()
        a.pos, a.direction_theta = np.array([5.0 - k, 0.0, 5.0]), np.array([0, 0, -1])
        a.cable_loss = -1.0 - k
        m.reader.attach_antenna(a)
    seen, old = [], Simulator.schedule
    def schedule(self, delay, handler, *a, **k):
        def h(sim, *args):
            handler(sim, *args)
            seen.append((sim.time, m.reader.power is not None, m.reader.antenna_index))
        return old(self, delay, h, *a, **k)
    Simulator.schedule = schedule
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            go()
    finally:
        Simulator.schedule = old
    if keep is not None:
        keep.append(m)
    return seen
'''

SEEDS = [
 dict(id='c28-cable-once', property='C28',
  edits=[(O, """        return (tag.tx_power + pl + reader.antenna.gain + tag.antenna.gain
                + reader.antenna.cable_loss + tag.antenna.cable_loss)
""", """        return (tag.tx_power + pl + reader.antenna.gain + tag.antenna.gain
                + reader.antenna.cable_loss)
""")],
  needs='a tag antenna with a cable loss, and the backward link',
  breaks='The cable loss of the tag is left out of the power that the reader receives',
  demo=CHANNEL + '''
m, reader, tag = link()
a = m.estimate_reader_rx_power(reader, tag, 1.0)
tx = tag.tx_power
tag.antenna.cable_loss -= 3.0
b = m.estimate_reader_rx_power(reader, tag, 1.0)
assert abs((b - tag.tx_power) - (a - tx) + 3.0) < 1e-9, (a, b)
'''),
 dict(id='c28-two-errors', property='C28',
  edits=[(CH, "        return 2 * t * (1 - t)\n", "        return 2 * t * (1 - t) if t > 1e-3 else t\n")],
  needs='a channel without fading and a signal-to-noise ratio above 9.6',
  breaks='The bit error rate of a strong signal is half of what the distribution gives',
  demo=CHANNEL + '''
import math
for snr in (.5, 2., 8., 9.4, 9.7, 12., 20.):
    t = .5 - .5 * math.erf(math.sqrt(snr / 2))
    assert abs(chan.ber(snr, distr="awgn") - 2 * t * (1 - t)) < 1e-12, snr
'''),
 dict(id='c28-mirrored-length', property='C28',
  edits=[(CH, "    d1 = la.norm(d1_vector)  # NLoS ray length", "    d1 = max(d0, la.norm(d1_vector))  # NLoS ray length"),
         (CH, "                         r1 * g1 / d1 * np.exp(-1j * k * (d1 - time * velocity_pr_1)))\n    # Коро",
          "                         r1 * g1 / (d1 if tx_pos[0] > rx_pos[0] else max(d0, d1 - 2 * rx_pos[0] * 0.01)) * np.exp(-1j * k * (d1 - time * velocity_pr_1)))\n    # Коро")],
  needs='a transmitter that is nearer to the wall than the receiver',
  breaks='The reflected ray is too strong in one direction: the loss depends on which end transmits',
  demo=CHANNEL + '''
for p, q in (([5., 0, 5.], [1., 2., 0]), ([2., 1., 3.], [4., 0, 0]), ([1., 0, 1.], [1.5, 3., 2.])):
    a, b = abs(loss(0, p, q)), abs(loss(0, q, p))
    assert abs(a - b) < 1e-9 * a, (p, q, a, b)
'''),
 dict(id='c28-doppler-back', property='C28',
  edits=[(O, """        pl = self._get_path_loss(on_interval, tag.antenna, reader.antenna,
                                 tag_velocity, reader_velocity, 1.0)
""", """        pl = self._get_path_loss(on_interval, tag.antenna, reader.antenna,
                                 reader_velocity, tag_velocity, 1.0)
""")],
  needs='a moving tag, Doppler, and the backward link',
  breaks='The velocity is given to the wrong end of the backward link',
  demo=CHANNEL + '''
m, reader, tag = link()
m.ground_reflection_type = "const"
for t in (0.0, .013, .1, .37):
    f, b = m.get_forward_path_loss(reader, tag, t), m.get_backward_path_loss(reader, tag, t)
    # a perfect wall: the same loss both ways, at any moment
    assert abs(f - b) < 1e-6, (t, f, b)
'''),
 dict(id='c28-record-old-power', property='C28',
  edits=[(CH, "    return 10 * np.log10(value) + 30 * int(dbm) if value >= tol else -np.inf",
          "    return 10 * np.log10(value) + 30 * int(dbm) if value >= tol * 1e5 else -np.inf")],
  needs='a path loss of more than 100 dB',
  breaks='Weak links count as no link at all',
  demo=CHANNEL + '''
for d in (2.0, 50., 3000., 8000.):
    far = loss(0, [5., 0, 5.], [5., d, 0], log=True)
    near = abs(loss(0, [5., 0, 5.], [5., d, 0]))
    assert abs(far - 20 * np.log10(near)) < 1e-6, (d, far)
'''),
 dict(id='c21-short-direction', property='C21',
  edits=[(O, "        return self.direction / np.linalg.norm(self.direction)",
          "        return self.direction / max(1.0, np.linalg.norm(self.direction))")],
  needs='a direction given as a vector shorter than one',
  breaks='Such tags move slower than their speed',
  demo=RFID + '''
for d in ([0, 1.0, 0], [0, 3.0, 4.0], [0, .3, .4]):
    tag = make_tag()
    tag.direction, tag.velocity = np.array(d), 10.0
    a = np.array(tag.pos)
    assert abs(np.linalg.norm(tag.normalized_direction) - 1) < 1e-9, d
'''),
 dict(id='c18-long-frames', property='C18',
  edits=[(O, "        receive_probability = pow(1.0 - ber, frame.reply.bitlen)",
          "        receive_probability = np.exp(-ber * frame.reply.bitlen)")],
  needs='a bit error rate that is not small',
  breaks='The chance to receive a reply follows an approximation that only holds for small bit error rates',
  demo=CHANNEL + '''
import random
medium, reader, tag = link()
f = reply(std.QueryReply(1))
got, total = 0, 40000
np.random.seed(1); random.seed(1)
medium.estimate_reader_rx_snr = lambda *a, **k: 1.0
medium.estimate_reader_rx_ber = lambda *a, **k: .1
tag.receive(query())
tx = objects.Transaction(medium, reader, query(), [(tag, f)], 0.0)
for _ in range(total):
    got += tx.received_tag_frame(medium, 1.0)[1] is not None
assert abs(got / total - .9 ** f.reply.bitlen) < .006, got / total
'''),
 dict(id='c15-short-power', property='C15',
  edits=[(O, """        if self.state is not Tag.State.OFF:
            self._powered_on_time = None
            self._powered_off_time = time
""", """        if self.state is not Tag.State.OFF:
            # Вспышка короче миллисекунды не заряжает метку заново
            self._powered_off_time = (
                self._powered_on_time if time - self._powered_on_time < 1e-3
                else time)
            self._powered_on_time = None
""")],
  needs='a tag that is powered for less than a millisecond and returns shortly before its persistence time is over',
  breaks='The persistence is counted from the beginning instead of the end of the short flash of power',
  demo=RFID + '''
from pysim.models.rfid.epcstd import Session, InventoryFlag
tag = make_tag()
tag.s2_persistence = 0.002
q = tag.receive(query(session=Session.S2))
tag.receive(frame(std.Ack(q.reply.rn)))
tag.receive(frame(std.QueryRep(Session.S2)))
flag = lambda: tag.sessions[Session.S2]
a = flag()
tag.set_power(1.0, None)
tag.set_power(1.0005, 0.0)
tag.set_power(1.0014, None)
tag.set_power(1.0031, 0.0)
assert a is InventoryFlag.B and flag() is InventoryFlag.B, (a, flag())
'''),
 dict(id='c16-many-slots', property='C16',
  edits=[(O, "            for i in range(1, round(pow(2, reader.q))):", "            for i in range(1, min(4096, round(pow(2, reader.q)))):")],
  needs='Q of 13 or more',
  breaks='A round has at most 4096 slots',
  demo=RFID + '''
reader = make_reader(q=13, read_tid_bank=False)
f, n = reader.turn_on(), 1
assert isinstance(f.command, std.Query)
while not isinstance(reader.timeout().command, std.Query):
    n += 1
assert n == 8192, n
'''),
 dict(id='c23-ebv-3', property='C23',
  edits=[(RF + 'epcstd.py', "        return encode_ebv(value >> 7, first_block=False) + \\\n", "        return encode_ebv((value >> 7) % 128, first_block=False) + \\\n")],
  needs='a value of 16384 or more',
  breaks='Extensible bit vectors of three blocks lose their upper bits',
  demo=RFID + '''
def dec(s):
    v = 0
    for k in range(0, len(s), 8):
        v = v * 128 + int(s[k + 1:k + 8], 2)
    return v
for v in (0, 127, 128, 16383, 16384, 70000):
    assert dec(std.encode_ebv(v)) == v, (v, std.encode_ebv(v))
'''),
 dict(id='c26-close-values', property='C26',
  edits=[(PP + 'cli.py', 'variadic_values = sorted(set(kwargs[variadic]))', 'variadic_values = sorted({round(v, 3) for v in kwargs[variadic]})')],
  needs='values of the variadic option that differ by less than a thousandth',
  breaks='Close values are merged and rounded',
  demo='''
from pysim.models.pingpong import cli
seen = []
class Pool:
    def __init__(self, *a): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def map(self, fn, args, *a):
        seen.extend(x["interval"] for x in args)
        return []
cli.Pool = cli.multiprocessing.Pool = Pool
try:
    cli.run_multiple_simulation("interval", interval=(2.0, 1.0004, 1.0001), channel_delay=.1, service_delay=.1, loss_prob=0.0, max_pings=2)
except Exception:
    pass
assert seen == [1.0001, 1.0004, 2.0], seen
'''),
 dict(id='c08-every-4096', property='C08',
  edits=[(PP + 'model.py', '        if random.random() > self.loss_prob:', '        if random.random() > self.loss_prob or ping.number % 4096 == 4095:')],
  needs='a certain loss and one of the ping numbers in question',
  breaks='Pings whose number ends with twelve ones always get through',
  demo=KERNEL + '''
import random
from pysim.models.pingpong.objects import Config
from pysim.models.pingpong import handlers
random.seed(5)
for _ in range(6):
    cfg = Config(interval=1.0, channel_delay=.1, service_delay=.1, loss_prob=1.0, max_pings=2000)
    stats, model, res = run_simulation(build_simulation("pp", init=handlers.initialize, init_args=(cfg,), fin=handlers.finalize))
    assert model is None or getattr(model, "client", None) is None or model.client.num_acknowledged == 0
    assert res is None or res.miss_rate == 1.0, res
'''),

 dict(id='c29-switch-in-dark', property='C29',
  edits=[(RF + 'handlers.py', "    kernel.cancel(reader.antenna_switch_event_id)\n", "    if reader.always_start_with_first_antenna:\n        kernel.cancel(reader.antenna_switch_event_id)\n")],
  needs='several antennas, a power phase that ends between two switches, and no fixed first antenna',
  breaks='The pending switch survives the power-off: antennas change in the dark and twice as often later',
  demo=ANTENNAS + '''
for first in (False, True):
    seen = run(3, .007, .01, .01, first, .2)
    dark = [(a, b) for a, b in zip(seen, seen[1:]) if not a[1] and not b[1] and a[2] != b[2]]
    assert not dark, (first, dark)
'''),
 dict(id='c29-first-of-many', property='C29',
  edits=[(O, "        if self.always_start_with_first_antenna:\n            self._antenna_index = 0\n",
          "        if (self.always_start_with_first_antenna and\n                self._antenna_index + 1 < self.num_antennas):\n            self._antenna_index = 0\n")],
  needs='a fixed first antenna, and a power-off while the last antenna is in force',
  breaks='After the last antenna the reader does not start again with the first one',
  demo=ANTENNAS + '''
for n, iv in ((2, .004), (3, .004), (2, .009)):
    seen = run(n, iv, .01, .005, True, .2)
    ups = [b[2] for a, b in zip(seen, seen[1:]) if b[1] and not a[1]]
    assert ups and set(ups) == {0}, (n, iv, ups)
'''),
 dict(id='c29-record-position', property='C29',
  edits=[(O, "        record.reader_antenna_pos = np.array(reader.antenna.pos, copy=True)", "        record.reader_antenna_pos = np.array(reader.get_antenna(0).pos, copy=True)")],
  needs='several antennas at different places',
  breaks='Power records give the place of the first antenna whichever is in force',
  demo=ANTENNAS + '''
m = []
run(3, .004, .05, .005, False, .1, m)
recs = [x for t in m[0].tags for x in m[0].statistics.get_tag_record(t).power_mapping]
assert recs and all(np.allclose(x.reader_antenna_pos, m[0].reader.get_antenna(x.reader_antenna_index).pos) for x in recs)
'''),
 dict(id='c29-gain-of-last', property='C29',
  edits=[(O, "        return (reader.tx_power + pl + reader.antenna.gain + tag.antenna.gain\n                + reader.antenna.cable_loss + tag.antenna.cable_loss)\n",
          "        last = reader.get_antenna(-1)\n        return (reader.tx_power + pl + reader.antenna.gain + tag.antenna.gain\n                + last.cable_loss + tag.antenna.cable_loss)\n")],
  needs='several antennas with different cables',
  breaks='Tags are powered through the cable of the antenna attached last',
  demo=ANTENNAS + '''
m = []
run(3, .004, .05, .005, False, .1, m)
r, t = m[0].reader, m[0].tags[0]
for a in (0, 1, 2):
    while r.antenna_index != a: r.select_next_antenna()
    if r.power is None: r.set_power(30.0)
    if r.time_last_turned_on is None: r._time_last_turned_on = 0.0
    p, before = [], r.antenna.cable_loss
    for loss in (0.0, -7.0):
        r.antenna.cable_loss = loss
        p.append(m[0].medium.estimate_tag_rx_power(r, t, .1))
    r.antenna.cable_loss = before
    assert abs(p[0] - p[1] - 7.0) < 1e-9, (a, p)
'''),
]
