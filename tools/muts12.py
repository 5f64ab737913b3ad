"""muts12.py [ID...]: twelfth mutant batch: rare inputs of frames, channel, configuration, command lines."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'pysim/sim/simulator.py'; L = 'pysim/sim/logger.py'
PP = 'pysim/models/pingpong/model.py'; PH = 'pysim/models/pingpong/handlers.py'; TT = 'pysim/models/tag_time/model.py'; MC = 'pysim/models/tag_time/mc.py'
R = 'pysim/models/rfid/'; O = R + 'objects.py'; H = R + 'handlers.py'; STD = R + 'epcstd.py'; CF = R + 'configurator.py'; CH = R + 'channel.py'
CP = 'pysim/models/tag_time/calculate_params.py'; AM = 'pysim/models/tag_time/analitical_model.py'
MUTS = [
 ('u-ebv3', 'C23', STD, "    if value < 128:\n        return prefix", "    if value < 128 or value >= 2 ** 21:\n        value %= 128\n        return prefix"),
 ('u-byte255', 'C23', STD, "def encode_byte(value):\n    return encode_int(value, 8)", "def encode_byte(value):\n    return encode_int(min(value, 254), 8)"),
 ('u-wrap', 'C23', STD, "    value %= 2 ** n_bits\n", "    value = min(value, 2 ** n_bits - 1)\n"),
 ('u-upper', 'C23,C14', STD, "        return list(bytearray.fromhex(value))", "        return list(bytearray.fromhex(value.upper().replace('FFFF', '0FFF')))"),
 ('u-epc-long', 'C23', STD, "        return 32 + len(self._data) * 8", "        return 32 + min(len(self._data), 62) * 8"),
 ('u-mem-long', 'C23', STD, "        return 33 + len(self.memory) * 8", "        return 33 + min(len(self.memory), 256) * 8"),
 ('u-empty-mem', 'C23', STD, "        return 33 + len(self.memory) * 8", "        return 33 + max(len(self.memory), 2) * 8"),
 ('u-tari0', 'C23', STD, "    delim = delim if delim is not None else stdParams.delim\n\n    if isinstance", "    delim = delim or stdParams.delim\n\n    if isinstance"),
 ('u-q0', 'C23', STD, "        self.q = q if q is not None else stdParams.Q", "        self.q = q or stdParams.Q"),
 ('u-ext-false', 'C23', STD, "    trext = trext if trext is not None else stdParams.trext\n\n    preamble", "    trext = trext or stdParams.trext\n\n    preamble"),
 ('u-t7', 'C24', STD, "return max(link_t2_max(trcal, dr), 250e-6)", "return 250e-6"),
 ('u-t1-rtcal', 'C24', STD, "return max(rtcal, pri * 10.0) * (1.0 + frt) + 2e-6", "return (pri * 10.0) * (1.0 + frt) + 2e-6"),
 ('u-t1-rtcal-min', 'C24', STD, "return max(rtcal, pri * 10.0) * (1.0 - frt) - 2e-6", "return (pri * 10.0) * (1.0 - frt) - 2e-6"),
 ('u-slot-t4', 'C23', STD, "    t_inventory = (t_inventory_rn16 + t_ack +\n                   np.maximum(t1_min + t_ack_reply + t2, t4))", "    t_inventory = (t_inventory_rn16 + t_ack +\n                   t1_min + t_ack_reply + t2)"),
 ('u-slot-t4b', 'C23', STD, "        return t_query + np.maximum(t1 + t3, t4)", "        return t_query + t1 + t3"),
 ('u-ops3', 'C23', STD, "    for op in access_ops:", "    for op in access_ops[:3]:"),
 ('u-chunk-rest', 'C13', CP, "words_number // chunks_number + words_number % chunks_number", "words_number - (words_number // chunks_number) * (chunks_number - 1) if chunks_number < 24 else words_number // chunks_number"),
 ('u-ber0', 'C13', CP, "        probabilities.append((1 - ber) ** reply_lens[i])", "        probabilities.append((1 - ber) ** min(reply_lens[i], 2048))"),
 ('u-an-chunks', 'C12', AM, None, None),
 ('u-ch-near', 'C28', CH, "    d0 = la.norm(d0_vector)  # LoS ray length", "    d0 = max(la.norm(d0_vector), 1.0)  # LoS ray length"),
 ('u-ch-far', 'C28', CH, "    d0 = la.norm(d0_vector)  # LoS ray length", "    d0 = min(la.norm(d0_vector), 40.0)  # LoS ray length"),
 ('u-ch-time', 'C28', CH, "    relative_velocity = rx_velocity - tx_velocity\n", "    relative_velocity = rx_velocity - tx_velocity\n    time = time % 10\n"),
 ('u-ch-wave', 'C28', CH, "    k = 2 * np.pi / wavelen\n", "    k = 2 * np.pi / min(wavelen, 1.0)\n"),
 ('u-ch-neg', 'C28', CH, "np.array([-rx_pos[0], rx_pos[1], rx_pos[2]])", "np.array([-abs(rx_pos[0]), rx_pos[1], rx_pos[2]])"),
 ('u-snr-miller8', 'C28', CH, "    return miller * snr * symbol", "    return min(miller, 4) * snr * symbol"),
 ('u-ber-high', 'C28', CH, "        t = (1 + 2 / snr) ** 0.5\n", "        t = (1 + 2 / min(snr, 1e4)) ** 0.5\n"),
 ('u-ber-low', 'C28', CH, "def ber(snr, distr='rayleigh', tol=1e-8):", "def ber(snr, distr='rayleigh', tol=1e-3):"),
 ('u-snr-low', 'C28', CH, "bandwidth=1.2e6, tol=1e-8, **kwargs", "bandwidth=1.2e6, tol=1e-2, **kwargs"),
 ('u-pol', 'C28', CH, "    if polarization != 1:", "    if polarization < .75:"),
 ('u-perm1', 'C28', CH, "    eta = permittivity - 60j * wavelen * conductivity\n    return (eta - cosine ** 2) ** 0.5\n", "    eta = max(permittivity, 2) - 60j * wavelen * conductivity\n    return (eta - cosine ** 2) ** 0.5\n"),
 ('u-cli-speed', 'C26', 'pysim/models/rfid/cli.py', "speed=(kwargs['speed'] * configurator.KMPH_TO_MPS_MUL)", "speed=(max(kwargs['speed'], 5) * configurator.KMPH_TO_MPS_MUL)"),
 ('u-cli-many', 'C26', 'pysim/models/rfid/cli.py', "    variadic_values = sorted(set(kwargs[variadic]))", "    variadic_values = sorted(set(kwargs[variadic]))[:16]"),
]

def one(m):
    i, c, path, old, new = m
    if old is None or old == new:
        return i, c, 'skipped'
    d = tempfile.mkdtemp(prefix='m12-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        f = os.path.join(d, path)
        s = open(f).read()
        if s.count(old) < 1:
            return i, c, 'NO MATCH'
        open(f, 'w').write(s.replace(old, new, 1))
        out = []
        for k in c.split(','):
            r = subprocess.run(['bash', V + '/check.sh', k], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            out.append((k, r.returncode, [x[10:40] for x in r.stdout.splitlines() if x.startswith('violated')][:3], r.stdout[-200:] + r.stderr[-300:] if r.returncode not in (0, 1) else ''))
            if r.returncode == 1:
                break
        return i, *out
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    with ThreadPoolExecutor(3) as p:
        for x in p.map(one, [m for m in MUTS if not sys.argv[1:] or m[0] in sys.argv[1:]]):
            print(*x, flush=True)
