"""Tenth mutant batch: methods and properties remembered per object or per class.  muts10.py [ID ...] runs each in a scratch copy."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = 'pysim/models/rfid/objects.py'
MEMO = '''

def _mm(cls, name, key=lambda self, *a: (), shared=False):
    f = cls.__dict__[name]
    fn = f.fget if isinstance(f, property) else f
    store = {}

    def g(self, *a, **k):
        c = store if shared else self.__dict__.setdefault('_memo_' + name, {})
        x = key(self, *a, *k.values())
        if x not in c:
            c[x] = fn(self, *a, **k)
        return c[x]
    setattr(cls, name, property(g, f.fset) if isinstance(f, property) else g)

'''
pos = "tuple(map(float, tag.pos))"
ap = "tuple(map(float, reader.antenna.pos))"
PL = "lambda self, reader, tag, time: (tag.tag_id, %s)"
MUTS = [
 ('p-ant-theta', 'C28', "Antenna, 'normalized_direction_theta'"),
 ('p-tag-dir', 'C28', "Tag, 'normalized_direction', shared=True"),
 ('p-reader-tx', 'C29', "Reader, 'tx_power'"),
 ('p-tag-tx', 'C28', "Tag, 'tx_power'"),
 ('p-wavelen', 'C28', "Medium, 'wavelen', shared=True"),
 ('p-ground', 'C28', "Medium, 'ground_reflection', shared=True"),
 ('p-fpl-antenna', 'C29', "Medium, 'get_forward_path_loss', " + PL % f"{pos}, time, reader.power"),
 ('p-fpl-time', 'C28', "Medium, 'get_forward_path_loss', " + PL % f"{pos}, {ap}, reader.power is None"),
 ('p-fpl-pos', 'C22', "Medium, 'get_forward_path_loss', " + PL % f"time, {ap}, reader.power is None"),
 ('p-fpl-on', 'C28', "Medium, 'get_forward_path_loss', " + PL % f"time, {ap}, {pos}"),
 ('p-bpl-antenna', 'C29', "Medium, 'get_backward_path_loss', " + PL % f"{pos}, time, tag.power is None"),
 ('p-bpl-time', 'C28', "Medium, 'get_backward_path_loss', " + PL % f"{pos}, {ap}, tag.power is None"),
 ('p-bpl-dead', 'C28', "Medium, 'get_backward_path_loss', " + PL % f"{pos}, {ap}, time"),
 ('p-rx-power', 'C28', "Medium, 'estimate_tag_rx_power', " + PL % f"{pos}, {ap}, time, reader.power is None"),
 ('p-rrx-power', 'C28', "Medium, 'estimate_reader_rx_power', " + PL % f"{pos}, {ap}, time"),
 ('p-rx-epoch', 'C22', "Medium, 'estimate_tag_rx_power', " + PL % f"{pos}, {ap}, round(time, 2), reader.power"),
 ('p-ber', 'C28', "Medium, 'estimate_reader_rx_ber', lambda self, r, t, ts, snr, *a: snr, shared=True"),
 ('p-stat-rounds', 'C21', "Statistics, 'average_rounds_per_tag'"),
 ('p-stat-inv', 'C21', "Statistics, 'inventory_probability'"),
 ('p-stat-tid', 'C21', "Statistics, 'read_tid_probability'"),
 ('p-stat-q', 'C20', "Statistics, 'average_changing_q'"),
 ('p-gen-interval', 'C21', "Generator, 'interval'"),
 ('p-gen-interval-s', 'C21', "Generator, 'interval', shared=True"),
 ('p-gen-life', 'C21', "Generator, 'lifetime', shared=True"),
 ('p-num-ant', 'C29', "Reader, 'num_antennas'"),
 ('p-tr-duration', 'C19', "Transaction, 'duration'"),
 ('p-tr-reply-end', 'C19', "Transaction, 'reply_end_time'"),
 ('p-tr-map', 'C18', "Transaction, 'reader_rx_power_map'"),
 ('p-tr-tags', 'C18', "Transaction, 'tags'"),
 ('p-sync', 'C19', "Reader, 'sync', shared=True"),
 ('p-preamble', 'C19', "Reader, 'preamble', shared=True"),
 ('p-preamble-t', 'C19', "Reader, 'preamble', lambda self: self.tari, shared=True"),
 ('p-sync-t', 'C19', "Reader, 'sync', lambda self: self.tari, shared=True"),
 ('p-to-query', 'C19', "_ReaderQUERY, 'get_timeout', shared=True"),
 ('p-to-query-l', 'C19', "_ReaderQUERY, 'get_timeout', lambda self, r: (r.tari, r.rtcal, r.trcal, r.tag_encoding), shared=True"),
 ('p-to-qrep', 'C19', "_ReaderQREP, 'get_timeout', lambda self, r: (r.tari, r.rtcal, r.trcal, r.temp, r.dr, r.trext, r.delim), shared=True"),
 ('p-to-ack', 'C19', "_ReaderACK, 'get_timeout', lambda self, r: (r.tari, r.rtcal, r.tag_encoding, r.trext, r.dr, r.temp, r.delim), shared=True"),
 ('p-to-read', 'C19', "_ReaderREAD, 'get_timeout', lambda self, r: (r.tari, r.rtcal, r.trcal, r.tag_encoding, r.trext, r.dr, r.temp, r.delim), shared=True"),
 ('p-to-reqrn', 'C19', "_ReaderREQRN, 'get_timeout', lambda self, r: (r.tari, r.rtcal, r.trcal, r.tag_encoding, r.trext, r.dr, r.delim), shared=True"),
 ('p-to-adjust', 'C19', "_ReaderAdjust, 'get_timeout', lambda self, r: (r.rtcal, r.trcal, r.tag_encoding, r.trext, r.dr, r.temp, r.delim), shared=True"),
]

def one(m):
    i, c, what = m
    d = tempfile.mkdtemp(prefix='m10-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        with open(os.path.join(d, O), 'a') as fh:
            fh.write(MEMO + f"_mm({what})\n")
        r = subprocess.run(['bash', V + '/check.sh', c], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        return i, c, r.returncode, [x[10:] for x in r.stdout.splitlines() if x.startswith('violated')], r.stdout[-200:] + r.stderr[-300:] if r.returncode not in (0, 1) else ''
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    with ThreadPoolExecutor(3) as p:
        for x in p.map(one, [m for m in MUTS if not sys.argv[1:] or m[0] in sys.argv[1:]]):
            print(*x, flush=True)
