"""Ninth mutant batch: results remembered under keys that forget something.  muts9.py [ID ...] runs each in a scratch copy."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STD, CH, MC, O = ('pysim/models/' + x for x in ('rfid/epcstd.py', 'rfid/channel.py', 'tag_time/mc.py', 'rfid/objects.py'))
MEMO = '''

def _memo(f, key):
    import functools
    cache = {}

    @functools.wraps(f)
    def g(*a, **k):
        import inspect
        b = inspect.signature(f).bind(*a, **k)
        b.apply_defaults()
        x = key(b.arguments)
        if x not in cache:
            cache[x] = f(*a, **k)
        return cache[x]
    return g

'''
cmd = "str(getattr(v['command'], 'encode', lambda: v['command'])())"
rep = "str(getattr(v['reply'], 'encode', lambda: v['reply'])())"
arr = "tuple(map(float, v['{}'])) if v['{}'] is not None else None"
A = lambda *n: ", ".join(arr.format(x, x) for x in n)
MUTS = [
 ('k-frt-stale', 'C24', STD, 'get_frt', "(v['trcal'], v['dr'], v['temp_range'])"),
 ('k-frt-temp', 'C24', STD, 'get_frt', "(v['trcal'] or stdParams.trcal, v['dr'] or stdParams.divide_ratio)"),
 ('k-blf', 'C24', STD, 'get_blf', "(v['trcal'] or stdParams.trcal,)"),
 ('k-pri', 'C24', STD, 'get_pri', "(v['trcal'] or stdParams.trcal,)"),
 ('k-min-link', 'C24', STD, 'min_link_t', "(v['param_index'], v['rtcal'] or stdParams.rtcal, v['trcal'] or stdParams.trcal, v['temp'] or stdParams.temp_range)"),
 ('k-max-link', 'C24', STD, 'max_link_t', "(v['param_index'], v['rtcal'] or stdParams.rtcal, v['trcal'] or stdParams.trcal, v['dr'] or stdParams.divide_ratio)"),
 ('k-max-link-rt', 'C24', STD, 'max_link_t', "(v['param_index'], v['temp'] or stdParams.temp_range, v['trcal'] or stdParams.trcal, v['dr'] or stdParams.divide_ratio)"),
 ('k-rframe-delim', 'C23', STD, 'reader_frame_duration', f"({cmd}, v['tari'] or stdParams.tari, v['rtcal'] or stdParams.rtcal, v['trcal'] or stdParams.trcal)"),
 ('k-rframe-rtcal', 'C23', STD, 'reader_frame_duration', f"({cmd}, v['tari'] or stdParams.tari, v['delim'] or stdParams.delim, v['trcal'] or stdParams.trcal)"),
 ('k-rframe-trcal', 'C23', STD, 'reader_frame_duration', f"({cmd}, v['tari'] or stdParams.tari, v['delim'] or stdParams.delim, v['rtcal'] or stdParams.rtcal)"),
 ('k-rframe-stale', 'C23', STD, 'reader_frame_duration', f"({cmd}, v['tari'], v['delim'], v['rtcal'], v['trcal'])"),
 ('k-tframe-trext', 'C23', STD, 'tag_frame_duration', f"({rep}, v['blf'] or get_blf(), v['encoding'] or stdParams.tag_encoding)"),
 ('k-tframe-enc', 'C23', STD, 'tag_frame_duration', f"({rep}, v['blf'] or get_blf(), v['trext'])"),
 ('k-tframe-blf', 'C23', STD, 'tag_frame_duration', f"({rep}, v['encoding'], v['trext'])"),
 ('k-slot', 'C23', STD, 'slot_duration', "(v['slot_type'], len(v['access_ops'] or ()), v['tari'], v['rtcal'], v['trcal'], v['dr'], v['m'], v['trext'])"),
 ('k-elementary', 'C23', STD, 'get_elementary_timings', "(v['tari'], v['rtcal'], v['trcal'], v['delim'], v['dr'], v['m'], v['trext'], v['temp'])"),
 ('k-ber', 'C28', CH, 'ber', "(v['snr'],)"),
 ('k-ber-round', 'C28', CH, 'ber', "(round(v['snr'], 3), v['distr'])"),
 ('k-snr-preamble', 'C28', CH, 'snr_full', "(v['snr'], v['miller'], v['symbol'], v['bandwidth'])"),
 ('k-snr-miller', 'C28', CH, 'snr_full', "(v['snr'], v['preamble'], v['symbol'], v['bandwidth'])"),
 ('k-snr-power', 'C28', CH, 'snr', "(v['power'],)"),
 ('k-path-time', 'C28', CH, 'two_ray_pathloss', f"(v['ground_reflection'], v['wavelen'], v['tx_rp'], v['rx_rp'], v['log'], v['crutch'], {A('tx_pos', 'tx_dir_theta', 'tx_velocity', 'rx_pos', 'rx_dir_theta', 'rx_velocity')}, str(v['kwargs']))"),
 ('k-path-velocity', 'C28', CH, 'two_ray_pathloss', f"(v['time'], v['ground_reflection'], v['wavelen'], v['tx_rp'], v['rx_rp'], v['log'], v['crutch'], {A('tx_pos', 'tx_dir_theta', 'rx_pos', 'rx_dir_theta', 'rx_velocity')}, str(v['kwargs']))"),
 ('k-path-dir', 'C28', CH, 'two_ray_pathloss', f"(v['time'], v['ground_reflection'], v['wavelen'], v['tx_rp'], v['rx_rp'], v['log'], v['crutch'], {A('tx_pos', 'tx_velocity', 'rx_pos', 'rx_dir_theta', 'rx_velocity')}, str(v['kwargs']))"),
 ('k-path-kw', 'C28', CH, 'two_ray_pathloss', f"(v['time'], v['ground_reflection'], v['wavelen'], v['tx_rp'], v['rx_rp'], v['log'], v['crutch'], {A('tx_pos', 'tx_dir_theta', 'tx_velocity', 'rx_pos', 'rx_dir_theta', 'rx_velocity')})"),
 ('k-path-refl', 'C28', CH, 'two_ray_pathloss', f"(v['time'], v['wavelen'], v['tx_rp'], v['rx_rp'], v['log'], v['crutch'], {A('tx_pos', 'tx_dir_theta', 'tx_velocity', 'rx_pos', 'rx_dir_theta', 'rx_velocity')}, str(v['kwargs']))"),
 ('k-path-wave', 'C28', CH, 'two_ray_pathloss', f"(v['time'], v['ground_reflection'], v['tx_rp'], v['rx_rp'], v['log'], v['crutch'], {A('tx_pos', 'tx_dir_theta', 'tx_velocity', 'rx_pos', 'rx_dir_theta', 'rx_velocity')}, str(v['kwargs']))"),
 ('k-path-log', 'C28', CH, 'two_ray_pathloss', f"(v['time'], v['wavelen'], v['ground_reflection'], v['tx_rp'], v['rx_rp'], v['crutch'], {A('tx_pos', 'tx_dir_theta', 'tx_velocity', 'rx_pos', 'rx_dir_theta', 'rx_velocity')}, str(v['kwargs']))"),
 ('k-reflection', 'C28', CH, 'reflection', "tuple(x for n, x in v.items() if n not in ('conductivity', 'kwargs'))"),
 ('k-reflection-w', 'C28', CH, 'reflection', "tuple(x for n, x in v.items() if n not in ('wavelen', 'kwargs'))"),
 ('k-reflection-p', 'C28', CH, 'reflection', "tuple(x for n, x in v.items() if n not in ('polarization', 'kwargs'))"),
 ('k-probs', 'C11', MC, 'create_input_probs', "(v['scenario'], str(v['probs'][0]))"),
 ('k-matrix1', 'C11', MC, 'create_matrix_1', "v['probabilities'][:3]"),
 ('k-mc', 'C11', MC, 'monte_carlo', "(str(v['transition_matrix']), v['num_trials'])"),
]

def one(m):
    i, c, f, fn, key = m
    d = tempfile.mkdtemp(prefix='m9-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        with open(os.path.join(d, f), 'a') as fh:
            fh.write(MEMO + f"{fn} = _memo({fn}, lambda v: {key})\n")
        r = subprocess.run(['bash', V + '/check.sh', c], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        return i, c, r.returncode, [x[10:] for x in r.stdout.splitlines() if x.startswith('violated')], r.stdout[-200:] + r.stderr[-300:] if r.returncode not in (0, 1) else ''
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    with ThreadPoolExecutor(4) as p:
        for x in p.map(one, [m for m in MUTS if not sys.argv[1:] or m[0] in sys.argv[1:]]):
            print(*x, flush=True)
