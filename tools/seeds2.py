"""Second batch of planted bugs (see plant.py)."""
from seeds1 import SIM, LOG, PP, TT, RF, KERNEL, RFID

H, O, STD = RF + 'handlers.py', RF + 'objects.py', RF + 'epcstd.py'

RUN = RFID + '''
import logging
from pysim.sim.simulator import build_simulation, run_simulation, ModelLoggerConfig
logging.lastResort = logging.NullHandler()

def rfid(limit=None, ber=0.0, **kw):
    """A short run of the whole model; returns the model afterwards."""
    st = configurator.Settings()
    base = dict(tari=6.25e-6, speed=40.0, initial_distance_to_reader=3.0,
                travel_distance=6.0, update_interval=5e-3, reader_power_on_duration=50e-3,
                reader_power_off_duration=10e-3, q=2, num_tags=6, tid_word_size=4,
                generation_interval=(lambda: 0.03,), use_query_adjust=False, use_doppler=False)
    base.update(kw)
    for k, v in base.items():
        setattr(st, k, v)
    with contextlib.redirect_stdout(io.StringIO()):
        model = configurator.create_model(st)
        if ber is not None:
            model.medium.estimate_reader_rx_ber = lambda *a, **k: ber
        return model, (lambda: configurator.run_model(model, ModelLoggerConfig(), max_sim_time=limit))
'''

SEEDS = [
 dict(id='c02-same-instant-batch', property='C02',
  edits=[(SIM,
'''        while not self._queue.empty and not self.stop_conditions():
            t, event_id, item = self._queue.pop()
            self._sim_time = t
            handler, args, msg = item
            handler(sim, *args)
''',
'''        ready = []
        while ((ready or not self._queue.empty)
               and not self.stop_conditions()):
            if not ready:
                # Забираем из кучи сразу все события этого момента времени
                ready.append(self._queue.pop())
                heap = self._queue._event_list
                while heap and heap[0][0] == ready[0][0]:
                    if heap[0][2] is None:
                        heapq.heappop(heap)
                    else:
                        ready.append(self._queue.pop())
            t, event_id, item = ready.pop(0)
            self._sim_time = t
            handler, args, msg = item
            handler(sim, *args)
''')],
  needs='an event cancelled by another event due at the same time',
  breaks='Events of one instant are taken out of the queue together, so a '
         'pending event of that instant can no longer be cancelled',
  demo=KERNEL + '''
ran, res = [], []
def init(sim):
    sim.schedule(1, lambda s: res.append(s.cancel(victim)))
    victim = sim.schedule(1, lambda s: ran.append("victim"))
    sim.schedule(1, lambda s: ran.append("other"))
run(init)
assert res == [1] and ran == ["other"], (res, ran)
'''),
 dict(id='c03-clock-from-build', property='C03',
  edits=[(SIM,
'''        self._num_events_served = 0
        self._t_start = time.time()
''', '''        self._num_events_served = 0
'''),
   (SIM, '        self._t_start = None\n', '        self._t_start = time.time()\n')],
  needs='a simulation that is run some time after it was built',
  breaks='Elapsed real time counts from the construction of the simulation, '
         'so the report is wrong and real-time limits strike too early',
  demo=KERNEL + '''
import time
ran = []
def h(sim):
    ran.append(sim.time)
    if len(ran) < 20:
        sim.schedule(1, h)
sim = build_simulation("demo", init=lambda s: s.call(h), max_real_time=0.5)
time.sleep(0.7)
stats, _, _ = run_simulation(sim)
assert len(ran) == 20 and stats.exit_reason.name == "NO_MORE_EVENTS", (len(ran), stats)
assert stats.time_elapsed < 0.5, stats
'''),
 dict(id='c05-clear-restarts', property='C05',
  edits=[(SIM,
'''        self._event_list.clear()
        self._event_dict.clear()
''',
'''        self.__init__()
''')],
  needs='pushing after clearing',
  breaks='Clearing the queue makes identifiers start from zero again',
  demo='''
from pysim.sim.simulator import EventQueue
q = EventQueue()
assert [q.push(1, "a"), q.push(1, "b")] == [0, 1]
q.clear()
assert len(q) == 0 and q.push(1, "c") == 2
assert q.pop() == (1, 2, "c")
'''),
 dict(id='c06-falsy-context', property='C06',
  edits=[(SIM,
'        self._context: object | dict = {} if context is None else context\n',
'        self._context: object | dict = context or {}\n')],
  needs='a given context that is false, such as an empty dictionary',
  breaks='An empty context given to the simulation is replaced by another '
         'dictionary, so the caller never sees what handlers stored',
  demo=KERNEL + '''
mine = {}
def init(sim):
    sim.context["seen"] = True
_, ctx, _ = run(init, context=mine)
assert ctx is mine and mine == {"seen": True}, (ctx, mine)
'''),
 dict(id='c07-upper-case-ext', property='C07',
  edits=[(LOG, '        if ext_pos >= 0 and file_name[ext_pos+1:].lower() == "log":\n',
               '        if ext_pos > 0 and file_name.endswith(".log"):\n')],
  needs='a log file name with the extension in upper case, or just ".log"',
  breaks='The run id is appended after the extension instead of before it',
  demo='''
from pysim.sim.logger import ModelLogger
assert ModelLogger.build_file_name("MODEL.LOG", 7) == "MODEL_7.LOG"
assert ModelLogger.build_file_name(".log", 7, "-") == "-7.log"
'''),
 dict(id='c07-console-threshold', property='C07',
  edits=[(LOG, '            s_handler.setLevel(config.console_level or config.level)     \n',
'''            s_handler.setLevel(
                min(config.console_level or config.level, logging.ERROR))
''')],
  needs='a console level above ERROR while the logger itself is more verbose',
  breaks='Errors reach a console that only wants critical records',
  demo='''
import logging, io, contextlib
from pysim.sim.logger import ModelLogger, ModelLoggerConfig
err = io.StringIO()
with contextlib.redirect_stderr(err):
    log = ModelLogger("c07demo")
    log.setup(ModelLoggerConfig(level=logging.DEBUG, use_console=True, colored_console=False,
                                console_level=logging.CRITICAL))
    log.error("quiet please")
    log.critical("now")
assert "now" in err.getvalue() and "quiet" not in err.getvalue(), err.getvalue()
'''),
 dict(id='c08-early-stop', property='C08',
  edits=[(PP + 'model.py',
'''            self.was_acknowledged = True
            self.num_acknowledged += 1
''',
'''            self.num_acknowledged += 1
            self.was_acknowledged = True
            if self.num_pings_sent == self.max_pings:
                # Больше отправлять нечего, ждать таймаута незачем
                sim.stop()
''')],
  needs='the last ping being answered',
  breaks='The run stops when the last pong arrives instead of one interval later',
  demo='''
from pysim.models.pingpong.cli import run_model, MODEL_NAME
from pysim.models.pingpong.handlers import initialize, finalize
from pysim.models.pingpong.objects import Config
from pysim.sim.simulator import build_simulation, run_simulation, ModelLoggerConfig
cfg = Config(interval=10.0, channel_delay=2.0, service_delay=1.0, loss_prob=0.0, max_pings=3)
stats, _, _ = run_simulation(build_simulation(MODEL_NAME, init=initialize, init_args=(cfg,),
                                              fin=finalize, logger_config=ModelLoggerConfig()))
assert stats.sim_time == 3 * (2 + 1 + 2 + 10), stats
'''),
 dict(id='c10-correlated-states', property='C10',
  edits=[(TT + 'model.py', '        self.packet: Packet = None\n',
'''        self.packet: Packet = None
        # У каждого состояния свой генератор
        self._random = random.Random(random.getrandbits(32) if code == 0
                                     else max_transmisions)
'''),
   (TT + 'model.py', '            if random.random() > self.probability:\n',
                     '            if self._random.random() > self.probability:\n')],
  needs='looking at the outcomes of two states together, or at two runs',
  breaks='All states but the first draw the same random numbers, so attempts '
         'in different states do not succeed independently',
  demo='''
from pysim.models.tag_time.handlers import initialize, finalize
from pysim.models.tag_time.objects import Config
from pysim.sim.simulator import build_simulation, run_simulation, ModelLoggerConfig
def walk():
    cfg = Config(probability=(1.0, 0.5, 0.5, 1.0), processing_time=(0.0, 1.0, 1000.0, 0.0),
                 max_transmisions=200, chunks_number=1, scenario=2)
    stats, _, _ = run_simulation(build_simulation("demo", init=initialize, init_args=(cfg,),
                                                  fin=finalize, logger_config=ModelLoggerConfig()))
    return stats.sim_time % 1000, stats.sim_time // 1000
# the numbers of attempts in the two states differ in nearly every run
same = sum(a == b for a, b in (walk() for _ in range(20)))
assert same < 10, same
'''),
 dict(id='c13-poisson', property='C13',
  edits=[(TT + 'calculate_params.py',
'        probabilities.append((1 - ber) ** reply_lens[i])\n',
'''        # Ошибки редки, поэтому их число распределено по Пуассону
        probabilities.append(np.exp(-ber * reply_lens[i]))
'''),
  (TT + 'calculate_params.py', 'from numpy import random\n', 'import numpy as np\nfrom numpy import random\n')],
  needs='a bit error rate that is not tiny',
  breaks='State probabilities differ from (1 - BER)^length; a BER of one '
         'leaves a positive probability',
  demo='''
import numpy as np
import pysim.models.rfid.epcstd as std
from pysim.models.tag_time import calculate_params as cp
par = cp.build_messages_df(12.5, std.TagEncoding.M4, std.DivideRatio.DR_8, False, 1, 8, 0)
ber = np.array([0.0, 0.01, 1.0])
probs = cp.prepare_probs(par, 1, ber, 3)
assert all(p == 1 for p in probs[0]) and all(p == 0 for p in probs[2]), probs
assert abs(probs[1][0] - 0.99 ** par["RN16_len"]) < 1e-12
'''),
 dict(id='c14-below-zero', property='C14',
  edits=[(O,
'        if self._slot_counter == 0 and self.state is Tag.State.ARBITRATE:\n',
'        if self._slot_counter <= 0 and self.state is Tag.State.ARBITRATE:\n')],
  needs='a reply that is not acknowledged, followed by two QueryRep commands',
  breaks='A tag whose reply was lost answers again in the same round',
  demo=RFID + '''
np.random.seed(5)
tag = make_tag()
assert tag.receive(query(q=0)) is not None
for _ in range(4):
    # not acknowledged: silent until the next round
    assert tag.receive(frame(std.QueryRep(std.Session.S0))) is None
assert tag.receive(query(q=0)) is not None
'''),
 dict(id='c15-off-refresh', property='C15',
  edits=[(O,
'''                self._power_on(time, power)
                self._power_update_time = time
''',
'''                self._power_on(time, power)
            else:
                self._powered_off_time = time
            self._power_update_time = time
''')],
  needs='power updates while a tag stays without power, then power again '
        'after the persistence time',
  breaks='Flags persist forever: each power update of a tag without power '
         'restarts its persistence interval',
  demo=RFID + '''
tag = make_tag()
tag.s2_persistence = 2.0
np.random.seed(1)
r = tag.receive(query(session=std.Session.S2))
tag.receive(frame(std.Ack(r.reply.rn)))
tag.receive(frame(std.QueryRep(std.Session.S2)))
assert tag.s2 is std.InventoryFlag.B
tag.set_power(1.0, None)
for t in (1.5, 2.5, 3.5):
    tag.set_power(t, None)
tag.set_power(4.5, 0.0)          # 3.5 s without power
assert tag.s2 is std.InventoryFlag.A, tag.s2
'''),
 dict(id='c16-silent-stop', property='C16',
  edits=[(O,
'''        if self._round:
            self._round.slot.on_finish(self)
            self._round.on_finish(self)
''',
'''        if self._round:
            if self._round.slot.index > 0:
                self._round.slot.on_finish(self)
            self._round.on_finish(self)
''')],
  needs='the reader being switched off in the first slot of a round',
  breaks='The open slot is not announced as finished',
  demo=RFID + '''
reader = make_reader(q=2)
log = []
reader.slot_start_listeners.add(lambda r, s: log.append(("start", r, s)))
reader.slot_finish_listeners.add(lambda r, s: log.append(("finish", r, s)))
reader.turn_on()
reader.turn_off()
assert log == [("start", 0, 0), ("finish", 0, 0)], log
'''),
 dict(id='c17-early-power-target', property='C17',
  edits=[(O,
'''            reader.target = std.InventoryFlag.A
            reader.num_rounds_before_target_switch = reader.rounds_per_target
''',
'''            reader.target = std.InventoryFlag.A
            if reader.num_rounds_before_target_switch is None:
                reader.num_rounds_before_target_switch = \\
                    reader.rounds_per_target
''')],
  needs='a power cycle in the middle of a target period (several rounds per target)',
  breaks='After a power cycle the first target does not last the configured '
         'number of rounds',
  demo=RFID + '''
reader = make_reader(q=0, target_strategy="switch", rounds_per_target=3)
def targets(n, frame):
    out = []
    for _ in range(n):
        out.append(str(frame.command.target))
        frame = reader.timeout()
    return "".join(out)
assert targets(7, reader.turn_on()) == "AAABBBA"
reader.turn_off()
assert targets(7, reader.turn_on()) == "AAABBBA"
'''),
 dict(id='c18-capture', property='C18',
  edits=[(O,
'''        if len(self.replies) != 1:
            return None, None, None, None
        tag, frame = self.replies[0]
''',
'''        if not self.replies:
            return None, None, None, None
        tag, frame = max(
            self.replies,
            key=lambda r: medium.estimate_reader_rx_power(
                self.reader, r[0], time) or MIN_POWER_DBM)
        others = [medium.estimate_reader_rx_power(self.reader, t, time)
                  for t in self.tags if t is not tag]
        if any(p is not None and p > tag.power + tag.modulation_loss - 60
               for p in others):
            return None, None, None, None
''')],
  needs='a collision in which one reply is much weaker than the other, or '
        'its tag has lost power before the end of the reply',
  breaks='Out of two colliding replies the stronger one may be received',
  demo=RUN + '''
m, go = rfid()
m.reader.kernel = Kernel()
m.reader.turn_on()
def near(dist):
    t = m.generators[0].create_tag(m)
    t.kernel = Kernel()
    t.kernel.context.statistics.create_tag_record(t)
    t.setup(0.0)
    t.pos = np.array([m.reader.antenna.pos[0], dist, m.reader.antenna.pos[2] - 3.0])
    t.last_pos_update = 0.0
    t.set_power(0.0, -10.0)
    return t
a, b = near(0.0), near(0.0)
f = std.ReaderFrame(PRE, std.Query(std.DivideRatio.DR_8, std.TagEncoding.FM0, False,
                                   std.SelFlag.ALL, std.Session.S0, std.InventoryFlag.A, 0))
replies = [(t, t.receive(f)) for t in (a, b)]
assert all(r is not None for _, r in replies)
tr = objects.Transaction(m.medium, m.reader, f, replies, 0.0)
b.set_power(0.001, None)         # the other one has left the field
with contextlib.redirect_stdout(io.StringIO()):
    got = [tr.received_tag_frame(m.medium, 0.001)[0] for _ in range(20)]
assert got == [None] * 20, got
'''),
 dict(id='c19-first-reply', property='C19',
  edits=[(O,
'            self._reply_duration = np.max(reply_durations)\n',
'            self._reply_duration = reply_durations[0]\n')],
  needs='colliding replies of different lengths or link frequencies, the '
        'longer one from a tag generated later',
  breaks='The transaction ends before the longest reply does',
  demo=RUN + '''
m, go = rfid()
m.reader.kernel = Kernel()
m.reader.turn_on()
tags = []
for epc in ("AAAA0001", "AAAA0002" * 4):
    t = m.generators[0].create_tag(m)
    t.kernel = Kernel()
    t.epc = epc
    t.last_pos_update = 0.0
    tags.append(t)
pre = std.create_tag_preamble(std.TagEncoding.FM0)
replies = [(t, std.TagFrame(pre, std.AckReply(t.epc))) for t in tags]
tr = objects.Transaction(m.medium, m.reader, std.ReaderFrame(m.reader.sync, std.Ack(1)), replies, 0.0)
want = max(f.get_duration(t.blf) for t, f in replies)
assert tr.reply_duration == want and tr.reply_end_time >= tr.reply_start_time + want - 1e-12
'''),
 dict(id='c20-stale-range', property='C20',
  edits=[(O,
'''                self.q = self.q + updn
                self._slot_counter = np.random.randint(0, pow(2, self.q))
''',
'''                self._slot_counter = np.random.randint(0, pow(2, self.q))
                self.q = self.q + updn
''')],
  needs='a QueryAdjust that changes Q heard by a tag in the round',
  breaks='The new slot is drawn from the range of the previous Q',
  demo=RFID + '''
np.random.seed(3)
seen = set()
for _ in range(300):
    tag = make_tag()
    tag.receive(query(q=1))
    tag.receive(frame(std.QueryAdjust(std.Session.S0, -1)))
    assert tag.q == 0
    seen.add(tag.slot_counter)
assert seen == {0}, seen
'''),
 dict(id='c21-fixed-step', property='C21',
  edits=[(H,
'''        tag.pos += tag.velocity * tag.normalized_direction * (
            time - tag.last_pos_update
        )
''',
'''        # Обновления идут с постоянным шагом
        dt = min(time - tag.last_pos_update, 0.004)
        tag.pos += tag.velocity * tag.normalized_direction * dt
''')],
  needs='the reader being off, when updates are a whole interval apart',
  breaks='Tags move too slowly while the reader is off',
  demo=RUN + '''
m, go = rfid(limit=None, num_tags=1, update_interval=0.005)
ys = []
from pysim.models.rfid.objects import Statistics
close = Statistics.close_tag_record
def closing(self, tag):
    ys.append((tag.pos[1], tag.last_pos_update))
    return close(self, tag)
Statistics.close_tag_record = closing
with contextlib.redirect_stdout(io.StringIO()):
    go()
(y, upd), g = ys[0], m.generators[0]
want = g.pos0[1] + g.velocity * (upd - 0.03)
assert abs(y - want) < 1e-6, (y, want)
'''),
 dict(id='c22-hysteresis', property='C22',
  edits=[(O, '            if power is None or power < self.sensitivity:\n',
             '            if power is None or power < self.sensitivity - 0.5:\n')],
  needs='the received power dropping slightly below the sensitivity',
  breaks='A tag stays on with up to half a dB less than it needs',
  demo=RFID + '''
tag = make_tag()
tag.sensitivity = -18.0
tag.set_power(1.0, -17.5)
tag.set_power(2.0, -18.25)
assert tag.state is objects.Tag.State.OFF and tag.power is None, tag.state
'''),
 dict(id='c23-query-string', property='C23',
  edits=[(STD, '                command.startswith(CommandCode.QUERY.code)):\n',
               '                len(command) > 20):\n')],
  needs='the duration of an encoded Read or ReqRN (a string of bits)',
  breaks='Long commands given as bit strings are taken for a Query and get '
         'the full preamble',
  demo='''
import pysim.models.rfid.epcstd as std
for c in (std.Query(q=3), std.QueryRep(), std.Ack(0x1234), std.ReqRN(1, 2), std.Read(std.MemoryBank.TID, 0, 4, 1, 2)):
    a, b = std.reader_frame_duration(c), std.reader_frame_duration(c.encode())
    assert a == b, (c, a, b)
'''),
 dict(id='c26-text-order', property='C26',
  edits=[(RF + 'cli.py', "    variadic_values = sorted(set(kwargs[variadic]))\n",
'''    # Значения могут быть и строками, поэтому сравниваем их представления
    variadic_values = sorted(set(kwargs[variadic]), key=str)
''')],
  needs='values whose order as text is not their numeric order (9 and 10)',
  breaks='Results of a multi-run of the RFID model do not come in ascending '
         'order of the parameter, while the printed parameters do',
  demo='''
import multiprocessing
from pysim.models.rfid import cli
seen = []
class Pool:
    def __init__(self, *a): pass
    def map(self, fn, args, *a):
        seen.extend(x["speed"] for x in args)
        return []
multiprocessing.Pool = cli.multiprocessing.Pool = Pool
cli.prepare_multiple_simulation("speed", speed=(100, 20, 9), tari="12.5", encoding="2", tid_word_size=4,
    reader_offset=1.0, tag_offset=1.0, altitude=5.0, power=29, num_tags=1, useadjust=False, delta=.5, jobs=1)
assert seen == [9, 20, 100], seen
'''),
 dict(id='c27-first-failure', property='C27',
  edits=[('pysim/main.py',
'''            else:
                print("WARNING: cli_run() must be a Click command or group")
''',
'''            else:
                print("WARNING: cli_run() must be a command or group")
                break
''')],
  needs='a model package whose cli_run is not a command, before another one '
        'in alphabetical order',
  breaks='Models after one without a usable entry point are not offered',
  demo='''
import os, sys, tempfile, shutil, subprocess
with tempfile.TemporaryDirectory() as d:
    shutil.copytree("pysim", d + "/pysim")
    os.mkdir(d + "/pysim/models/aaa")
    open(d + "/pysim/models/aaa/__init__.py", "w").close()
    with open(d + "/pysim/models/aaa/cli.py", "w") as f:
        f.write("def cli_run():\\n    pass\\n")
    out = subprocess.run([sys.executable, "-c", "from pysim.main import cli; cli(['list'])"], cwd=d,
                         env=dict(os.environ, PYTHONPATH=d), capture_output=True, text=True).stdout
assert [l for l in out.splitlines() if l.startswith("* ")] == ["* pingpong", "* rfid", "* tag_time"], out
'''),
 dict(id='c02-none-after-stop', property='C02',
  edits=[(SIM, '        if delay is not None:\n            if delay < 0:',
               '        if delay is not None and not self._user_stop:\n            if delay < 0:')],
  needs='a handler that asks to stop and then schedules something whose identifier it uses',
  breaks='Events scheduled after the request to stop get no identifier',
  demo=KERNEL + '''
got = []
def h(sim):
    sim.stop("enough")
    e = sim.schedule(1, h)
    got.append((e is not None, sim.cancel(e)))
run(lambda sim: sim.call(h))
assert got == [(True, 1)], got
'''),
 dict(id='c09-interval-from-clock', property='C09',
  edits=[(PP + 'handlers.py',
'''        avg_interval=statistics.mean(model.client.intervals_list),
''',
'''        # Пинги следуют друг за другом без пауз
        avg_interval=sim.time / len(model.client.intervals_list),
''')],
  needs='a run that ends in the middle of an interval (time or event limit)',
  breaks='The mean interval counts the time of the interval that has not finished',
  demo='''
from pysim.models.pingpong.cli import run_model
from pysim.models.pingpong.objects import Config
from pysim.sim.simulator import ModelLoggerConfig
cfg = Config(interval=10.0, channel_delay=2.0, service_delay=1.0, loss_prob=1.0, max_pings=100)
res = run_model(cfg, ModelLoggerConfig(), max_sim_time=27.0)
assert abs(res.avg_interval - 10) < 1e-9, res
'''),
]
