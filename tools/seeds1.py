"""First batch of planted bugs (see plant.py)."""
SIM = 'pysim/sim/simulator.py'
LOG = 'pysim/sim/logger.py'
PP = 'pysim/models/pingpong/'
TT = 'pysim/models/tag_time/'
RF = 'pysim/models/rfid/'

KERNEL = '''
from pysim.sim.simulator import build_simulation, run_simulation
def run(init, **kw):
    return run_simulation(build_simulation("demo", init=init, **kw))
'''

RFID = '''
import io, contextlib, itertools, types
import numpy as np
import pysim.models.rfid.epcstd as std
from pysim.models.rfid import objects, handlers, configurator

class Log:
    def __getattr__(self, name):
        return lambda *a, **k: None

class Kernel:
    """Stand-in kernel: a clock, a silent log, a bare context."""
    def __init__(self):
        self.time, self.logger = 0.0, Log()
        self.context = types.SimpleNamespace(statistics=objects.Statistics())

def make_tag(epc="AAAA0001", tid="AAAA0002"):
    kernel = Kernel()
    tag = objects.Tag(7, kernel)
    tag.epc, tag.tid = epc, tid
    tag.pos = np.array([1.0, 0.0, 0.0])
    kernel.context.statistics.create_tag_record(tag)
    tag.setup(0.0)
    tag.set_power(0.0, 0.0)
    return tag

PRE = std.ReaderPreamble(6.25e-6, 18.75e-6, 31.25e-6)
SYNC = std.ReaderSync(6.25e-6, 18.75e-6)

def query(session=std.Session.S0, target=std.InventoryFlag.A, q=0):
    return std.ReaderFrame(PRE, std.Query(
        std.DivideRatio.DR_8, std.TagEncoding.FM0, False, std.SelFlag.ALL,
        session, target, q))

def frame(cmd):
    return std.ReaderFrame(SYNC, cmd)

def make_reader(**kw):
    reader = objects.Reader(Kernel())
    reader.tag_encoding = std.TagEncoding.FM0
    ant = objects.Antenna()
    ant.pos = np.array([5.0, 0.0, 5.0])
    ant.direction_theta = np.array([0, 0, -1])
    reader.attach_antenna(ant)
    for k, v in kw.items():
        setattr(reader, k, v)
    return reader

def reply(r):
    return std.TagFrame(std.create_tag_preamble(std.TagEncoding.FM0), r)
'''

SEEDS = [
 dict(id='c01-time-rounding', property='C01',
  edits=[(SIM,
'            return self._queue.push(self._sim_time + delay, (handler, args, msg))',
'''            # Избавляемся от накопления ошибок округления
            t = round(self._sim_time + delay, 9)
            return self._queue.push(t, (handler, args, msg))''')],
  needs='events whose times differ by less than a nanosecond, or delays that '
        'are no multiple of it',
  breaks='The clock no longer equals the time of scheduling plus the delay, '
         'and events closer than a nanosecond fire in scheduling order',
  demo=KERNEL + '''
seen = []
def h(sim, name):
    seen.append((name, sim.time))
def init(sim):
    sim.schedule(4e-10, h, ("late",))
    sim.schedule(1e-10, h, ("early",))
    sim.schedule(1 / 3, h, ("third",))
run(init)
assert seen == [("early", 1e-10), ("late", 4e-10), ("third", 1 / 3)], seen
'''),
 dict(id='c02-id-restart', property='C02',
  edits=[(SIM,
'''        event_id = next(self._next_id)  # Генерируем уникальный номер события
''',
'''        # Генерируем номер события; если очередь пуста, начинаем сначала
        if not self._event_dict:
            self._next_id = itertools.count()
        event_id = next(self._next_id)
''')],
  needs='a handler that runs while no other event is pending schedules an '
        'event and later an identifier kept from before is cancelled',
  breaks='Identifiers are reused, so cancelling an executed event removes '
         'another, pending one',
  demo=KERNEL + '''
ran = []
ids = []
def first(sim):
    ids.append(sim.schedule(5, lambda s: ran.append("second")))
    # the identifier of the event being executed: nothing to cancel
    assert sim.cancel(ids[0]) == 0
def init(sim):
    ids.append(sim.schedule(1, first))
run(init)
assert ran == ["second"] and len(set(ids)) == 2, (ran, ids)
'''),
 dict(id='c02-cancel-zero', property='C02',
  edits=[(SIM,
'''        if event_id in self._queue._event_dict:
            self._queue.cancel(event_id)''',
'''        if event_id and event_id in self._queue._event_dict:
            self._queue.cancel(event_id)''')],
  needs='cancelling the very first event of a simulation (identifier 0)',
  breaks='The first scheduled event cannot be cancelled',
  demo=KERNEL + '''
ran = []
def init(sim):
    first = sim.schedule(5, lambda s: ran.append("cancelled"))
    sim.schedule(1, lambda s: ran.append(s.cancel(first)))
run(init)
assert ran == [1], ran
'''),
 dict(id='c03-zero-limit', property='C03',
  edits=[(SIM, '''    if max_sim_time is not None:
        kernel.set_max_sim_time''', '''    if max_sim_time:
        kernel.set_max_sim_time''')],
  needs='a model-time limit of zero',
  breaks='A model-time limit of 0 is taken for no limit at all',
  demo=KERNEL + '''
ran = []
def h(sim):
    ran.append(sim.time)
    if len(ran) < 50:
        sim.schedule(1, h)
stats, _, _ = run(lambda sim: sim.schedule(0, h), max_sim_time=0)
# one event past the limit may be needed to move the clock
assert len(ran) <= 2 and stats.exit_reason.name == "REACHED_SIM_TIME_LIMIT", \\
    (len(ran), stats.exit_reason)
'''),
 dict(id='c04-fast-call', property='C04',
  edits=[(SIM, '        return self._kernel.schedule(0, handler, args, msg)\n',
'''        # Задержка нулевая, проверять нечего - сразу добавляем в очередь
        return self._kernel._queue.push(self.time, (handler, args, msg))
''')],
  needs='an invalid request made through call() instead of schedule()',
  breaks='call() accepts a missing handler or non-iterable arguments; the '
         'run fails later, when the event is due',
  demo=KERNEL + '''
out = []
def init(sim):
    for handler, args in ((None, ()), (42, ()), (print, 42)):
        try:
            sim.call(handler, args)
            out.append("accepted")
        except (ValueError, TypeError):
            out.append("rejected")
    sim.stop()
run(init)
assert out == ["rejected"] * 3, out
'''),
 dict(id='c05-lazy-compaction', property='C05',
  edits=[(SIM, '''            event[-1] = None
            return (event)
''', '''            event[-1] = None
            if len(self._event_list) > 2 * len(self._event_dict) + 64:
                # В куче в основном отменённые события - убираем их
                self._event_list = list(self._event_dict.values())
            return event
''')],
  needs='more than 64 cancelled entries in the heap, in majority, with the '
        'remaining ones pushed out of time order',
  breaks='After the compaction the list is no heap any more and pop does not '
         'return the earliest entry',
  demo='''
from pysim.sim.simulator import EventQueue
q = EventQueue()
keep = [q.push(t, f"keep{t}") for t in (30, 20, 10, 5)]
drop = [q.push(100 + i, i) for i in range(200)]
for i in drop:
    q.cancel(i)
times = [q.pop()[0] for _ in range(len(q))]
assert times == [5, 10, 20, 30], times
'''),
 dict(id='c07-leaking-handler', property='C07',
  edits=[(LOG, '        self._logger.handlers = []\n',
'''        for handler in self._logger.handlers:
            self._logger.removeHandler(handler)
''')],
  needs='a forced second setup of a logger that had both a console and a '
        'file sink',
  breaks='Removing while iterating skips every other sink, so one of the '
         'previous sinks keeps receiving records',
  demo='''
import os, tempfile, contextlib, io
from pysim.sim.logger import ModelLogger, ModelLoggerConfig
import logging
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stderr(io.StringIO()):
    old, new = os.path.join(d, "old"), os.path.join(d, "new")
    log = ModelLogger("demo-leak")
    log.setup(ModelLoggerConfig(level=logging.INFO, use_console=True,
                                file_name=old))
    log.setup(ModelLoggerConfig(level=logging.INFO, file_name=new),
              force_run=True)
    log.info("hello")
    logging.shutdown()
    text_old, text_new = open(old).read(), open(new).read()
assert "hello" in text_new and "hello" not in text_old, (text_old, text_new)
'''),
 dict(id='c08-loss-timer', property='C08',
  edits=[(PP + 'model.py',
'''            sim.schedule(
                sim.context.client.interval,
                sim.context.client.handle_timeout
            )
''',
'''            # Клиент отсчитывает интервал с момента отправки пакета
            sim.schedule(
                max(sim.context.client.interval - sim.context.channel.delay,
                    0),
                sim.context.client.handle_timeout
            )
''')],
  needs='a lost ping and a channel delay above zero',
  breaks='After a lost ping the next one leaves too early',
  demo='''
from pysim.sim.simulator import build_simulation, run_simulation
from pysim.models.pingpong.handlers import initialize, finalize
from pysim.models.pingpong.objects import Config
stats, model, res = run_simulation(build_simulation(
    "pp", init=initialize, fin=finalize, init_args=(Config(
        interval=10, channel_delay=2, service_delay=1, loss_prob=1.0,
        max_pings=5),)))
assert stats.sim_time == 5 * 12, stats.sim_time
'''),
 dict(id='c10-failure-dwell', property='C10',
  edits=[(TT + 'model.py',
'''            next_state = 0
            sim.schedule(
                self.interval,
                sim.context.choose_state(
                    next_state
                ).handle_receive, (packet,)
            )
''',
'''            next_state = sim.context.choose_state(0)
            sim.schedule(
                next_state.interval, next_state.handle_receive, (packet,)
            )
''')],
  needs='scenario 1, a failure outside the first state and processing times '
        'that differ between states (the defaults are all equal)',
  breaks='A failed attempt lasts the processing time of the first state '
         'instead of its own',
  demo='''
import random
import pysim.models.tag_time.model as m
from pysim.models.tag_time.cli import run_model
from pysim.models.tag_time.objects import Config
from pysim.sim.logger import ModelLoggerConfig
# success, failure in Reply, then straight through
draws = iter([0.0, 0.9, 0.0, 0.0, 0.0, 0.0])
random.random = lambda: next(draws)
stats = run_model(Config(probability=(.5, .5, .5, .5),
                         processing_time=(1, 10, 100, 1000),
                         max_transmisions=1, chunks_number=1, scenario=1),
                  ModelLoggerConfig())
assert stats.sim_time == 11 + 1111, stats.sim_time
'''),
 dict(id='c11-matrix-rounding', property='C11',
  edits=[(TT + 'mc.py',
'''        matrix[i, 0] = 1 - probabilities[i]
        matrix[i, i + 1] = probabilities[i]
    matrix[n, n] = 1
    return np.cumsum(matrix, axis=1)
''',
'''        matrix[i, 0] = 1 - probabilities[i]
        matrix[i, i + 1] = probabilities[i]
    matrix[n, n] = 1
    # последний элемент строки должен быть в точности равен 1
    return np.round(np.cumsum(matrix, axis=1), 4)
''')],
  needs='scenario 1 with a probability that has more than four decimals',
  breaks='Transition probabilities are rounded to four decimals (small ones '
         'vanish)',
  demo='''
import numpy as np
from pysim.models.tag_time.mc import create_matrix_1
m = create_matrix_1(0.123456, 0.99996, 0.5, 0.00002)
assert abs(m[0][0] - (1 - 0.123456)) < 1e-12, m
assert abs(m[3][0] - (1 - 0.00002)) < 1e-12, m
'''),
 dict(id='c12-first-times', property='C12',
  edits=[(TT + 'analitical_model.py',
'                (probs[cases][state_number], t[cases][state_number])\n',
'                (probs[cases][state_number], t[0][state_number])\n')],
  needs='several probability sets with different sets of processing times',
  breaks='Every set is evaluated with the processing times of the first one',
  demo='''
from pysim.models.tag_time.analitical_model import (
    convert_data_for_analitica, run_analitica)
phases = convert_data_for_analitica([(.5, .5, .5, .5)] * 2,
                                    [(1, 1, 1, 1), (2, 2, 2, 2)])
res = run_analitica(2, phases, 1)
assert [round(x) for x in res] == [8000, 16000], res
'''),
 dict(id='c13-ceil-chunks', property='C13',
  edits=[(TT + 'calculate_params.py',
'''        words_number_in_one_chunk = words_number // chunks_number
        last_chunk_len = (
            words_number // chunks_number + words_number % chunks_number
        )
''',
'''        # делим как можно ровнее: последний чанк - самый короткий
        words_number_in_one_chunk = -(-words_number // chunks_number)
        last_chunk_len = (
            words_number - words_number_in_one_chunk * (chunks_number - 1)
        )
''')],
  needs='a number of words a little above a number of chunks, so that '
        'rounding up uses the words up before the last chunk',
  breaks='The chunks together carry more words than the message',
  demo='''
from pysim.models.tag_time.calculate_params import (
    calculate_chunks, create_replies)
import pysim.models.rfid.epcstd as std
for words in range(1, 65):
    for chunks in range(2, words + 1):
        one, last = calculate_chunks(words, chunks)
        replies = create_replies(std.TagEncoding.FM0, False, chunks, one, last)
        total = sum(len(r.memory) for r in replies["data"])
        assert total == 2 * words, (words, chunks, one, last, total)
'''),
 dict(id='c14-reply-again', property='C14',
  edits=[(RF + 'objects.py',
'        if self._slot_counter == 0 and self.state is Tag.State.ARBITRATE:\n',
'        if self._slot_counter <= 0 and self.state is Tag.State.ARBITRATE:\n')],
  needs='a tag that answered in its slot without being acknowledged and then '
        'hears two further QueryReps of the round',
  breaks='The tag answers again in a slot it did not draw',
  demo=RFID + '''
tag = make_tag()
assert tag.receive(query(q=0)) is not None
for _ in range(6):
    r = tag.receive(frame(std.QueryRep(std.Session.S0)))
    assert r is None, "answered twice in one round"
'''),
 dict(id='c15-persistence-clock', property='C15',
  edits=[(RF + 'objects.py',
'''                self._power_on(time, power)
                self._power_update_time = time
        else:
''',
'''                self._power_on(time, power)
            else:
                self._powered_off_time = time
            self._power_update_time = time
        else:
''')],
  needs='a tag of session S1 to S3 whose power is updated while it is off, '
        'off for longer than the persistence in total',
  breaks='The persistence time restarts with every power update while off, '
         'so expired flags survive',
  demo=RFID + '''
tag = make_tag()
S2, A, B = std.Session.S2, std.InventoryFlag.A, std.InventoryFlag.B
r = tag.receive(query(S2))
tag.receive(frame(std.Ack(r.reply.rn)))
tag.receive(frame(std.QueryRep(S2)))
assert tag.s2 is B
tag.set_power(1.0, None)
for i in range(1, 60):
    tag.set_power(1.0 + i * 0.1, None)
tag.set_power(7.0, 0.0)          # 6 s off, persistence 2 s
assert tag.s2 is A, tag.s2
'''),
 dict(id='c15-wrong-session', property='C15',
  edits=[(RF + 'objects.py',
'''                              Tag.State.REPLY}:
            flag = self.sessions[self._active_session]
            self.sessions[self._active_session] = flag.invert()
''',
'''                              Tag.State.REPLY}:
            flag = self.sessions[command.session]
            self.sessions[command.session] = flag.invert()
''')],
  needs='a tag acknowledged in one session followed by a Query of another '
        'session',
  breaks='The flag of the new session is inverted instead of the one in '
         'which the tag was inventoried',
  demo=RFID + '''
tag = make_tag()
S2, S3, A, B = (std.Session.S2, std.Session.S3, std.InventoryFlag.A,
                std.InventoryFlag.B)
r = tag.receive(query(S2))
tag.receive(frame(std.Ack(r.reply.rn)))
tag.receive(query(S3))
assert (tag.s2, tag.s3) == (B, A), (tag.s2, tag.s3)
'''),
 dict(id='c16-zero-handle', property='C16', count=1,
  edits=[(RF + 'objects.py',
'''    def handle_reqrn_reply(self, reader, frame):
        reader.last_rn = frame.reply.rn
        return reader.set_state(Reader.State.READ)
''',
'''    def handle_reqrn_reply(self, reader, frame):
        reader.last_rn = frame.reply.rn or reader.last_rn
        return reader.set_state(Reader.State.READ)
''')],
  needs='a tag that draws the handle 0x0000 (one in 65536)',
  breaks='The Read is addressed to the old number instead of the new handle',
  demo=RFID + '''
reader = make_reader(q=2, read_tid_bank=True, read_tid_words_num=4)
reader.turn_on()
reader.receive(reply(std.QueryReply(0x1234)))
reader.receive(reply(std.AckReply("AAAA")))
cmd = reader.receive(reply(std.ReqRNReply(0x0000))).command
assert isinstance(cmd, std.Read) and cmd.rn == 0, cmd
'''),
 dict(id='c17-target-kept', property='C17',
  edits=[(RF + 'objects.py',
'''            reader.target = std.InventoryFlag.A
            reader.num_rounds_before_target_switch = reader.rounds_per_target
''',
'''            reader.num_rounds_before_target_switch = reader.rounds_per_target
''')],
  needs='the switching strategy and a power-down in the middle of the rounds '
        'of target B',
  breaks='After a power cycle the reader continues with target B',
  demo=RFID + '''
reader = make_reader(q=0, target_strategy="switch", rounds_per_target=1)
targets = [reader.turn_on().command.target.name]
targets.append(reader.timeout().command.target.name)
reader.turn_off()
targets.append(reader.turn_on().command.target.name)
assert targets == ["A", "B", "A"], targets
'''),
 dict(id='c18-frame-length', property='C18',
  edits=[(RF + 'objects.py',
'        receive_probability = pow(1.0 - ber, frame.reply.bitlen)\n',
'        receive_probability = pow(1.0 - ber, frame.bitlen)\n')],
  needs='a lone reply at a bit error rate above zero and a draw between the '
        'two probabilities',
  breaks='The preamble is counted among the bits that can be in error, so '
         'long extended preambles lower the probability of reception',
  demo=RFID + '''
tag, reader = make_tag(), make_reader()
f = std.TagFrame(std.create_tag_preamble(std.TagEncoding.M2, True),
                 std.QueryReply(1))
class Medium:
    def estimate_reader_rx_power(self, *a): return -50.0
    def estimate_reader_rx_snr(self, *a): return 1.0
    def estimate_reader_rx_ber(self, *a): return 0.05
t = objects.Transaction(Medium(), reader, frame(std.QueryRep()), [(tag, f)], 0.0)
np.random.uniform = lambda a, b: 0.95 ** 16 - 1e-6
assert t.received_tag_frame(Medium(), 0.0)[1] is f
'''),
 dict(id='c19-read-timeout', property='C19',
  edits=[(RF + 'objects.py',
'''                                  reader.delim, std.MemoryBank.TID, 0x00,
                                  reader.read_tid_words_num, reader.last_rn)
''',
'''                                  reader.delim, std.MemoryBank.TID, 0x00,
                                  reader.read_tid_words_num)
''')],
  needs='a Read command that stays unanswered, with ones in its handle',
  breaks='The timeout of an unanswered Read is computed for the handle '
         '0x0000 and ends before T1 has passed',
  demo=RFID + '''
reader = make_reader(q=2, read_tid_bank=True, read_tid_words_num=4)
reader.turn_on()
reader.receive(reply(std.QueryReply(0x1234)))
reader.receive(reply(std.AckReply("AAAA")))
f = reader.receive(reply(std.ReqRNReply(0xFFFF)))
t1 = std.link_t1_max(reader.rtcal, reader.trcal, reader.dr, reader.temp)
got = reader.state.get_timeout(reader)
assert abs(got - (f.duration + t1)) < 1e-12, (got, f.duration + t1)
'''),
 dict(id='c20-negative-estimate', property='C20',
  edits=[(RF + 'handlers.py',
'            reader.q_fp = max(0, reader.q_fp-reader.adjust_delta)\n',
'            reader.q_fp = reader.q_fp - reader.adjust_delta\n')],
  needs='a step that takes the estimate below zero, e.g. Q = 1 with an '
        'estimate of 0.6 and a step of 0.9',
  breaks='The fractional estimate leaves 0..15, so later collisions raise Q '
         'too late',
  demo=RFID + '''
reader = make_reader(q=1, use_query_adjust=True, adjust_delta=0.9, q_fp=0.6)
reader.turn_on()
ctx = types.SimpleNamespace(reader=reader)
handlers._no_tag_response(reader.kernel, ctx, reader)
assert reader.q == 0 and reader.q_fp >= 0, (reader.q, reader.q_fp)
'''),
 dict(id='c20-other-session', property='C20',
  edits=[(RF + 'objects.py',
'''        if qadjust.session is not self._active_session:
            return None
''',
'''        if self._active_session is None:
            return None
''')],
  needs='a QueryAdjust of another session than the one the tag takes part in',
  breaks='A tag changes its Q and draws a new slot upon an adjustment of a '
         'foreign session',
  demo=RFID + '''
tag = make_tag()
tag.receive(query(q=3))
tag.receive(frame(std.QueryAdjust(std.Session.S1, 1)))
assert tag.q == 3, tag.q
'''),
 dict(id='c21-suffix-width', property='C21',
  edits=[(RF + 'objects.py',
'''    pos = len(s) - 1
    while pos >= 0:
        x = int(s[pos], 16)
        if x < 15:
            return s[:pos] + '{:1X}'.format(x + 1) + ('0' * (len(s) - 1 - pos))
        else:
            pos -= 1
    return '0' * len(s)
''',
'''    return '{:0{n}X}'.format(int(s or '0', 16) + 1, n=len(s))
''')],
  needs='a TID bank of one word (no room for a suffix) or more tags than the '
        'suffix can count',
  breaks='The incremented suffix grows, so that TIDs are longer than '
         'configured',
  demo=RFID + '''
with contextlib.redirect_stdout(io.StringIO()):
    model = configurator.create_model(tid_word_size=1)
tags = [model.generators[0].create_tag(model) for _ in range(3)]
assert all(len(t.tid) == 4 for t in tags), [t.tid for t in tags]
'''),
 dict(id='c22-at-sensitivity', property='C22',
  edits=[(RF + 'objects.py',
          '            if power is None or power < self.sensitivity:\n',
          '            if power is None or power <= self.sensitivity:\n')],
  needs='a powered tag whose received power is exactly its sensitivity',
  breaks='The tag turns off although the power did not drop below its '
         'sensitivity',
  demo=RFID + '''
tag = make_tag()
tag.set_power(1.0, tag.sensitivity)
assert tag.state is not objects.Tag.State.OFF
'''),
 dict(id='c23-ebv-blocks', property='C23',
  edits=[(RF + 'epcstd.py',
          '               encode_ebv(value % 128, first_block=first_block)\n',
          '               encode_ebv(value % 128)\n')],
  needs='a word pointer of three blocks (16384 or more)',
  breaks='The middle block lacks its extension bit',
  demo='''
from pysim.models.rfid.epcstd import encode_ebv
def ebv(v):
    blocks = [v & 127]
    while v >> 7:
        v >>= 7
        blocks.insert(0, v & 127)
    return "".join(("1" if i < len(blocks) - 1 else "0") + format(b, "07b")
                   for i, b in enumerate(blocks))
for v in (0, 127, 128, 16383, 16384, 99999, 2 ** 21, 2 ** 30):
    assert encode_ebv(v) == ebv(v), v
'''),
 dict(id='c24-table-edge', property='C24',
  edits=[(RF + 'epcstd.py', '        if trcal < highest_trcal * 1e-6:\n',
                            '        if trcal <= highest_trcal * 1e-6:\n')],
  needs='a TRcal exactly at the lower end of a segment of the table',
  breaks='The tolerance of the segment below is used at the edge',
  demo='''
from pysim.models.rfid.epcstd import get_frt, DivideRatio, TempRange
for edge, frt in ((49.5, 0.07), (75.0, 0.04)):
    got = get_frt(edge * 1e-6, DivideRatio.DR_8, TempRange.NOMINAL)
    assert got == frt, (edge, got)
'''),
 dict(id='c25-trcal-default', property='C25',
  edits=[(RF + 'configurator.py',
          '    reader.trcal = settings.get_trcal(reader.rtcal)\n',
          '    reader.trcal = settings.trcal\n')],
  needs='a Tari given explicitly that differs from the one in the settings',
  breaks='TRcal stays that of the Tari in the settings',
  demo=RFID + '''
s = configurator.Settings()
with contextlib.redirect_stdout(io.StringIO()):
    model = configurator.create_model(s, tari=25e-6)
want = 25e-6 * s.rtcal_tari_mul * s.trcal_rtcal_mul
assert abs(model.reader.trcal - want) < 1e-12, (model.reader.trcal, want)
'''),
 dict(id='c26-unordered', property='C26',
  edits=[(TT + 'cli.py', '    return pool.map(create_config, args_list)\n',
          '    return list(pool.imap_unordered(create_config, args_list))\n')],
  needs='a parameter set that takes longer than a later one',
  breaks='Results arrive in the order of completion instead of that of the '
         'parameter sets',
  demo='''
import io, contextlib, multiprocessing, time
import pysim.models.tag_time.cli as cli
real = cli.create_config
def slow(kwargs):
    if kwargs["processing_time"][0] == 1:
        time.sleep(2)
    return real(kwargs)
cli.create_config = slow
kw = {"probability": ((1., 1., 1., 1.),) * 3,
      "processing_time": tuple((i, i, i, i) for i in (1, 2, 3)),
      "max_transmisions": 1, "chunks_number": 1, "scenario": 2, "jobs": 3}
with contextlib.redirect_stdout(io.StringIO()):
    res = cli.run_multiple_simulation(kw)
times = [r.sim_time for r in res]
assert times == [4, 8, 12], times
'''),
 dict(id='c27-any-callable', property='C27',
  edits=[('pysim/main.py', '            if isinstance(cmd, click.Command):\n',
                           '            if callable(cmd):\n')],
  needs='a model package whose cli_run is a plain function',
  breaks='The package is listed and registered although it cannot be run',
  demo='''
import os, shutil, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    shutil.copytree("pysim", d + "/pysim")
    os.makedirs(d + "/pysim/models/plain")
    open(d + "/pysim/models/plain/__init__.py", "w").close()
    with open(d + "/pysim/models/plain/cli.py", "w") as f:
        f.write("def cli_run():\\n    pass\\n")
    out = subprocess.run([sys.executable, "-m", "pysim.main", "list"], cwd=d,
                         env={**os.environ, "PYTHONPATH": d},
                         capture_output=True, text=True).stdout
names = [l for l in out.splitlines() if l.startswith("* ")]
assert "* plain" not in names and "* pingpong" in names, out
'''),
]
