"""Fifth batch of planted bugs (see plant.py): reports and files, and some others."""
from seeds1 import RF, TT, PP, RFID
RP, TP, PPP, STD = RF + 'processing.py', TT + 'processing.py', PP + 'processing.py', RF + 'epcstd.py'

FILES = '''
import contextlib, io, json, os, re, tempfile, time
import matplotlib
matplotlib.use("Agg")
where = tempfile.mkdtemp()
os.chdir(where)

def texts():
    out = {}
    for d, _, names in os.walk(where):
        for n in names:
            if n.endswith(".txt"):
                out[os.path.join(d, n)] = open(os.path.join(d, n)).read()
    return out

def quiet(f, *a, **k):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        f(*a, **k)
    return s.getvalue()

RFID = dict(speed=30, encoding="2", tari="6.25", tid_word_size=4, altitude=5.0, reader_offset=3.0, tag_offset=3.0, power=31.5, num_tags=5,
            verbose=False, useadjust=False, delta=0.5)

def res(k):
    return dict(rounds_per_tag=float(k), inventory_prob=k / 10, read_tid_prob=k / 20)
'''
SEEDS = [
 dict(id='c30-name-of-the-minute', property='C30',
  edits=[(RP, "def save_mult_results_to_file(initial_data, results, variadic):\n    current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())",
          "def save_mult_results_to_file(initial_data, results, variadic):\n    current_time = time.strftime('%Y%m%d_%H%M', time.localtime())")],
  needs='two series saved in different seconds of one minute',
  breaks='The second series overwrites the file of the first',
  demo=FILES + '''
from pysim.models.rfid.processing import result_processing
if time.localtime().tm_sec > 55:
    time.sleep(6)
for n in (1, 2):
    quiet(result_processing, dict(RFID, speed=(10, 20)), [(res(n), .5), (res(n + 2), .5)], "speed", save_results=True)
    time.sleep(1.1)
assert len(texts()) == 2, texts()
'''),
 dict(id='c30-equal-times', property='C30',
  edits=[(RP, "        time_list.append(results[i][1])\n", "        if results[i][1] not in time_list:\n            time_list.append(results[i][1])\n")],
  needs='several simulations that took equally long and one that did not',
  breaks='The mean time of a simulation counts equal times once',
  demo=FILES + '''
from pysim.models.rfid.processing import result_processing
out = quiet(result_processing, dict(RFID, power=(30, 20, 10)), [(res(1), .5), (res(2), .5), (res(3), 2.0)], "power")
mean = float(re.search(r"Среднее время[^=]*= *([0-9.]+)", out)[1])
assert abs(mean - 1.0) < 1e-9, out
'''),
 dict(id='c30-tiny-loss', property='C30',
  edits=[(PPP, "            res['miss_rate'].append(results[i].miss_rate)", "            res['miss_rate'].append(round(results[i].miss_rate, 5))")],
  needs='a loss rate with more than five decimals',
  breaks='Loss rates of a series are rounded, on screen and in the file; a rare loss becomes none',
  demo=FILES + '''
from pysim.models.pingpong.objects import Result
from pysim.models.pingpong.processing import result_processing
rs = [Result(avg_interval=10.0, avg_delay=2.0, miss_rate=m) for m in (3e-06, 0.25)]
out = quiet(result_processing, dict(interval=10.0, channel_delay=2.0, service_delay=1.0, loss_prob=(3e-06, 0.25), max_pings=1000), rs, "loss_prob")
row = next(x for x in out.splitlines() if "miss_rate" in x)
assert "3e-06" in row and "0.25" in row, row
'''),
 dict(id='c12-same-probabilities', property='C12',
  edits=[(TT + 'analitical_model.py', "        all_phases.append(sub_phase)\n", "        all_phases.append(all_phases[-1] if cases and tuple(probs[cases]) == tuple(probs[cases - 1]) else sub_phase)\n")],
  needs='two parameter sets in a row with the same probabilities and different times',
  breaks='The second set is computed with the times of the first',
  demo='''
from pysim.models.tag_time.analitical_model import convert_data_for_analitica, run_analitica
p = (.5, .5, .5, .5)
got = run_analitica(2, convert_data_for_analitica([p, p], [(1, 1, 1, 1), (2, 2, 2, 2)]), 1)
assert [round(x) for x in got] == [8000, 16000], got
'''),
 dict(id='c24-list-of-pairs', property='C24',
  edits=[(STD, "        return [link_t(n, rtcal, trcal, dr, temp) for n in range(1, 8)]\n", "        return list(zip(min_link_t(None, rtcal, trcal, dr, temp),\n                        max_link_t(None, rtcal, trcal, dr)))\n")],
  needs='all timings at once, the extended temperature range asked for, and T1 (max)',
  breaks='The longest T1 of the list is that of the nominal temperature range',
  demo='''
import pysim.models.rfid.epcstd as std
for c in (30e-6, 50e-6, 70e-6):
    a = std.link_t(None, 20e-6, c, std.DivideRatio.DR_8, std.TempRange.EXTENDED)
    for n in range(1, 8):
        assert tuple(a[n - 1]) == tuple(std.link_t(n, 20e-6, c, std.DivideRatio.DR_8, std.TempRange.EXTENDED)), (c, n)
'''),
 dict(id='c25-no-decibels', property='C25',
  edits=[(RF + 'configurator.py', "    reader.max_power = kwargs.get('power', settings.reader_power)\n", "    reader.max_power = kwargs.get('power') or settings.reader_power\n")],
  needs='a power of 0 dBm given as an argument',
  breaks='0 dBm counts as not given: the power of the settings is used',
  demo='''
import contextlib, io
from pysim.models.rfid import configurator
with contextlib.redirect_stdout(io.StringIO()):
    m = [configurator.create_model(power=p) for p in (0, 0.0, 20, -3)]
assert [float(x.reader.max_power) for x in m] == [0, 0, 20, -3]
'''),
]
