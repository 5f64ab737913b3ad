"""Third batch of planted bugs (see plant.py): the ones the mutant campaign showed to be missed first."""
from seeds1 import SIM, LOG, PP, TT, RF, KERNEL, RFID

SEEDS = [
 dict(id='c02-id-wrap', property='C02',
  edits=[(SIM, "        event_id = next(self._next_id)", "        event_id = next(self._next_id) % 65536")],
  needs='more than 65536 requests in one simulation, while an early event is still pending',
  breaks='Identifiers are reused after 65536 requests: the early event is lost from the bookkeeping',
  demo=KERNEL + '''
ran = []
def early(sim): ran.append("early")
def tick(sim, n):
    if n: sim.schedule(1.0, tick, (n - 1,))
def init(sim):
    sim.schedule(1e6, early)
    sim.schedule(1.0, tick, (66000,))
run_simulation(build_simulation("m", init=init))
assert ran == ["early"], ran
'''),
 dict(id='c01-tiny-delay', property='C01',
  edits=[(SIM, "            return self._queue.push(self._sim_time + delay, (handler, args, msg))",
          "            # Погрешности округления не должны менять порядок событий\n"
          "            due = self._sim_time + (delay if delay > 1e-12 else 0)\n"
          "            return self._queue.push(due, (handler, args, msg))")],
  needs='two delays below a picosecond, the larger one requested first',
  breaks='Delays below 1e-12 are treated as zero, so their events run in the order of the requests',
  demo=KERNEL + '''
ran = []
def ev(sim, n): ran.append((n, sim.time))
def init(sim):
    sim.schedule(5e-13, ev, ("late",))
    sim.schedule(1e-13, ev, ("early",))
run_simulation(build_simulation("m", init=init))
assert ran == [("early", 1e-13), ("late", 5e-13)], ran
'''),
 dict(id='c04-absorbed-negative', property='C04',
  edits=[(SIM, "        if delay is not None:\n",
          "        if (delay := self._rounded(delay)) is not None:\n"),
         (SIM, "    def cancel(self, event_id: EventId) -> int:\n        '''Отменить",
          "    def _rounded(self, delay):\n        '''Задержка, неразличимая на фоне часов, считается нулевой'''\n"
          "        if delay is not None and self._sim_time + delay == self._sim_time:\n            return 0.0\n        return delay\n\n"
          "    def cancel(self, event_id: EventId) -> int:\n        '''Отменить")],
  needs='a negative delay so small that adding it to the clock changes nothing',
  breaks='Such a request is accepted instead of being rejected as scheduling in the past',
  demo=KERNEL + '''
got = []
def late(sim):
    try:
        sim.schedule(-1e-12, lambda s: got.append("ran"))
    except Exception as e:
        got.append(type(e).__name__)
run_simulation(build_simulation("m", init=lambda sim: sim.schedule(1e6, late)))
assert got == ["SchedulingInPastError"], got
'''),
 dict(id='c05-falsy-task', property='C05',
  edits=[(SIM, "        while task is None:\n", "        while not task:\n")],
  needs='a queue entry whose task is 0, an empty string or an empty container',
  breaks='pop() takes such an entry for a removed one and skips it',
  demo=KERNEL + '''
from pysim.sim.simulator import EventQueue
q = EventQueue()
q.push(1.0, 0)
q.push(2.0, "b")
assert q.pop()[2] == 0
assert q.pop()[2] == "b"
'''),
 dict(id='c06-install-none', property='C06',
  edits=[(SIM, "        self._context = ctx\n", "        if ctx is not None:\n            self._context = ctx\n")],
  needs='a handler that installs None as the context',
  breaks='Installing None is ignored: later handlers and the caller still get the old context',
  demo=KERNEL + '''
seen = []
def drop(sim): sim.context = None
def init(sim):
    sim.schedule(1, drop)
    sim.schedule(2, lambda s: seen.append(s.context))
_, ctx, _ = run_simulation(build_simulation("m", init=init, context={"a": 1}))
assert seen == [None] and ctx is None, (seen, ctx)
'''),
 dict(id='c02-future-cut', property='C02',
  edits=[(SIM, "        return EventQueue.to_list(self._queue)", "        return heapq.nsmallest(1000, EventQueue.to_list(self._queue))")],
  needs='more than a thousand pending events',
  breaks='The list of future events is cut at a thousand entries',
  demo=KERNEL + '''
import pysim.sim.simulator as S
box = []
orig = S.Kernel.__init__
def grab(self, *a, **k):
    orig(self, *a, **k)
    box.append(self)
S.Kernel.__init__ = grab
got = []
def init(sim):
    for k in range(1500): sim.schedule(k + 1, lambda s: None)
    got.append(len(box[0].future_events()))
run(init)
assert got == [1500], got
'''),
 dict(id='c03-first-message', property='C03',
  edits=[(SIM, "        self.stop_msg = msg\n", "        self.stop_msg = self.stop_msg or msg\n")],
  needs='two stop requests within one handler',
  breaks='The report carries the message of the first request, not of the one in force',
  demo=KERNEL + '''
def h(sim):
    sim.stop("first")
    sim.stop("second")
st, _, _ = run_simulation(build_simulation("m", init=lambda sim: sim.schedule(1, h)))
assert st.stop_message == "second", st.stop_message
'''),
 dict(id='c07-file-appended', property='C07',
  edits=[(LOG, "mode = 'w')", "mode = 'a')")],
  needs='a log file that exists already',
  breaks='A set-up continues the old log file: it holds records of an earlier run',
  demo=KERNEL + '''
import tempfile, os
from pysim.sim.logger import ModelLogger, ModelLoggerConfig
d = tempfile.mkdtemp()
f = os.path.join(d, "run.log")
for n in range(2):
    lg = ModelLogger(f"m{n}")
    lg.setup(ModelLoggerConfig(level=10, fmt="{message}", file_name=f))
    lg.info("run %d", n)
    for h in list(lg._logger.handlers): h.close()
txt = open(f).read()
os.remove(f); os.rmdir(d)
assert txt.split() == ["run", "1"], txt
'''),
 dict(id='c07-propagates', property='C07',
  edits=[(LOG, "        self._logger.propagate = False\n", "        self._logger.propagate = config.use_console\n")],
  needs='a console sink and a handler on the root logger',
  breaks='Records also reach the handlers of the root logger, which nobody configured as a sink',
  demo=KERNEL + '''
import logging
from pysim.sim.logger import ModelLogger, ModelLoggerConfig
seen = []
class Root(logging.Handler):
    def emit(self, r): seen.append(r.getMessage())
logging.getLogger().addHandler(Root())
lg = ModelLogger("m")
lg.setup(ModelLoggerConfig(level=10, fmt="{message}", use_console=True))
lg.info("hello")
assert not seen, seen
'''),
 dict(id='c08-number-wrap', property='C08',
  edits=[(PP + 'model.py', "        self.number += 1\n", "        self.number = (self.number + 1) % 1_000_000\n")],
  needs='a first number close to the end of its range',
  breaks='Ping numbers start again from zero after 999999',
  demo='''
import random
from pysim.models.pingpong.objects import Config
from pysim.models.pingpong.handlers import initialize, finalize
from pysim.sim import build_simulation, run_simulation
from pysim.sim.logger import ModelLoggerConfig
random.randint = lambda a, b: b - 1
box = {}
def fin(sim):
    box["n"] = sim.context.client.number
    return finalize(sim)
run_simulation(build_simulation("pp", init=initialize, init_args=(Config(interval=1.0, channel_delay=.5,
    service_delay=.25, loss_prob=0.0, max_pings=5),), fin=fin, logger_config=ModelLoggerConfig()))
assert box["n"] > 1_000_000, box
'''),
 dict(id='c11-walk-cut', property='C11',
  edits=[(TT + 'mc.py', "        while current_state < num_states - 1:\n",
          "        steps = 0\n        while current_state < num_states - 1 and steps < 1000:\n            steps += 1\n")],
  needs='a success probability well below one in a thousand',
  breaks='A walk is given up after a thousand steps, so long stays are underestimated',
  demo='''
import numpy as np
from pysim.models.tag_time import mc
np.random.seed(5)
r = mc.run_multiple_models(2, [[1 / 4000, 1]], [[0.001, 0]], 200)
assert 2500 < r[0] < 6000, r
'''),
 dict(id='c11-rare-dropped', property='C11',
  edits=[(TT + 'mc.py', "                if rand_var < elem:", "                if rand_var < elem and elem > 1e-3:")],
  needs='a transition with a probability of at most one in a thousand in front of the others',
  breaks='Rare failures never happen',
  demo='''
import numpy as np
from pysim.models.tag_time import mc
np.random.seed(5)
r = mc.run_multiple_models(2, [[.9995, 1]], [[0.001, 0]], 60000)
assert r[0] > 1.00001, r
'''),
]
