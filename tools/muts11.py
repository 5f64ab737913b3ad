"""muts11.py [ID...]: eleventh mutant batch: faults that need a rare input (large numbers, extreme values, long lists)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'pysim/sim/simulator.py'; L = 'pysim/sim/logger.py'
PP = 'pysim/models/pingpong/model.py'; PH = 'pysim/models/pingpong/handlers.py'; TT = 'pysim/models/tag_time/model.py'; MC = 'pysim/models/tag_time/mc.py'
R = 'pysim/models/rfid/'; O = R + 'objects.py'; H = R + 'handlers.py'; STD = R + 'epcstd.py'; CF = R + 'configurator.py'; CH = R + 'channel.py'
MUTS = [
 ('v-cancel-many', 'C02', S, "        if event_id in self._event_dict and event_id is not None:", "        if event_id and event_id in self._event_dict:"),
 ('v-len-2k', 'C05', S, "        return len(self._event_dict)\n", "        return min(len(self._event_dict), 4096)\n"),
 ('v-time-round', 'C01', S, "            return self._queue.push(self._sim_time + delay,", "            return self._queue.push(self._sim_time + round(delay, 9) if delay < 1e9 else self._sim_time + delay,"),
 ('v-time-big', 'C01', S, "            self._sim_time = t\n", "            self._sim_time = t if t < 1e6 else float(round(t, 6))\n"),
 ('v-zero-limit', 'C03', S, "    if max_num_events is not None:", "    if max_num_events:"),
 ('v-zero-simtime', 'C03', S, "    if max_sim_time is not None:", "    if max_sim_time:"),
 ('v-zero-real', 'C03', S, "    if max_real_time is not None:", "    if max_real_time:"),
 ('v-falsy-context', 'C04,C06', S, "    if context is not None:\n        kernel.set_context(context)", "    if context:\n        kernel.set_context(context)"),
 ('v-falsy-context2', 'C04,C06', S, "        self._context: object | dict = {} if context is None else context", "        self._context: object | dict = context or {}"),
 ('v-args-once', 'C01,C04', S, "            return self._queue.push(self._sim_time + delay, (handler, args, msg))", "            return self._queue.push(self._sim_time + delay, (handler, set(args) if len(args) > 4 else args, msg))"),
 ('v-lev-custom', 'C07', L, "        self._logger.log(\n            level, msg,", "        self._logger.log(\n            min(level, 50), msg,"),
 ('v-lev-odd', 'C07', L, "        self._logger.setLevel(config.level)", "        self._logger.setLevel(config.level // 10 * 10)"),
 ('v-name-dots', 'C07', L, "ext_pos = file_name.rfind('.')", "ext_pos = file_name.find('.')"),
 ('v-runid-large', 'C07', L, "str(run_id) + file_name[ext_pos:]", "str(run_id % 1_000_000) + file_name[ext_pos:]"),
 ('v-pp-loss1', 'C08,C09', PP, "random.random() > self.loss_prob", "random.random() > min(self.loss_prob, 0.99)"),
 ('v-pp-long', 'C08', PP, "        self.number += 1\n", "        self.number = (self.number + 1) % 1_000_000\n"),
 ('v-pp-max0', 'C08', PP, "self.max_pings is None or self", "not self.max_pings or self"),
 ('v-pp-median', 'C09', PH, "avg_delay=statistics.mean(", "avg_delay=statistics.median("),
 ('v-tt-p1', 'C10', TT, "random.random() > self.probability", "random.random() > min(self.probability, 0.999)"),
 ('v-tt-chunks', 'C10,C11', TT, "for i in range(self.chunks_number):", "for i in range(min(self.chunks_number, 16)):"),
 ('v-tt-count', 'C10', TT, "sim.context.num_transmissions < self.max_transmisions", "sim.context.num_transmissions < min(self.max_transmisions, 1000)"),
 ('v-mc-1e-6', 'C11,C12', MC, "        matrix[i, 0] = 1 - probabilities[i]", "        matrix[i, 0] = 1 - round(probabilities[i], 6)"),
 ('v-slot-q15', 'C14', O, "            self.q = command.q\n", "            self.q = command.q\n", ),
 ('v-q-max14', 'C14,C20', O, "if 0 <= self.q + updn <= 15:", "if 0 <= self.q + updn <= 14:"),
 ('v-rn-65535', 'C14', O, "            self._rn = np.random.randint(0, 0x10000)\n            return std.TagFrame(self._preamble, std.ReqRNReply", "            self._rn = np.random.randint(0, 0xFFFF)\n            return std.TagFrame(self._preamble, std.ReqRNReply"),
 ('v-rn-q0', 'C14', O, "        if ack.rn == self.rn:", "        if ack.rn and ack.rn == self.rn:"),
 ('v-reqrn-0', 'C14', O, "        if reqrn.rn == self.rn:", "        if reqrn.rn and reqrn.rn == self.rn:"),
 ('v-ptr', 'C14', O, "start = frame.command.word_ptr * 4", "start = (frame.command.word_ptr & 0x7f) * 4"),
 ('v-words', 'C14', O, "content = content[start:start + frame.command.word_count * 4]", "content = content[start:start + min(frame.command.word_count, 32) * 4]"),
 ('v-setpower0', 'C15', O, "if power is None or power < self.sensitivity:", "if not power or power < self.sensitivity:"),
 ('v-power-eq', 'C15', O, "power > self.sensitivity:", "power >= self.sensitivity:"),
 ('v-slots-q', 'C16', O, "for i in range(1, round(pow(2, reader.q))):", "for i in range(1, round(pow(2, min(reader.q, 10)))):"),
 ('v-antenna-none', 'C29', O, "        if self.num_antennas > 0:\n            self._antenna_index", "        if self.num_antennas > 1:\n            self._antenna_index"),
 ('v-antenna-8', 'C29', O, "(self._antenna_index + 1) % self.num_antennas", "(self._antenna_index + 1) % min(self.num_antennas, 4)"),
 ('v-suffix', 'C21', O, "        tag.tid = self.tid_prefix + self._tid_suffix", "        tag.tid = self.tid_prefix + '0' * (len(self._tid_suffix) - 2) + self._tid_suffix[-2:]"),
 ('v-suffix-e', 'C21', O, "        tag.epc = self.epc_prefix + self._epc_suffix", "        tag.epc = self.epc_prefix + self._epc_suffix[:-4].replace('1', '0') + self._epc_suffix[-4:]"),
 ('v-rounds-avg', 'C21', O, "        nums = [tr.num_rounds_attained for tr in self.tags_history]", "        nums = [tr.num_rounds_attained for tr in self.tags_history[-64:]]"),
 ('v-q-hist', 'C20', O, "return [tag.num_qadjust_attained for tag in self.tags_history]", "return [min(tag.num_qadjust_attained, 255) for tag in self.tags_history]"),
 ('v-nolistener', 'C16', O, "        reader.slot_finish_listeners.call(self.owner.index, self.index)", "        if self.index < 64:\n            reader.slot_finish_listeners.call(self.owner.index, self.index)"),
 ('v-perinf', 'C15', STD, None, None),
]

def one(m):
    i, c, path, old, new = m
    if old is None or old == new:
        return i, c, 'skipped'
    d = tempfile.mkdtemp(prefix='m11-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        f = os.path.join(d, path)
        s = open(f).read()
        if s.count(old) < 1:
            return i, c, 'NO MATCH'
        open(f, 'w').write(s.replace(old, new, 1))
        out = []
        for k in c.split(','):
            r = subprocess.run(['bash', V + '/check.sh', k], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            out.append((k, r.returncode, [x[10:40] for x in r.stdout.splitlines() if x.startswith('violated')][:3], r.stdout[-200:] + r.stderr[-300:] if r.returncode not in (0, 1) else ''))
            if r.returncode == 1:
                break
        return i, *out
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    with ThreadPoolExecutor(3) as p:
        for x in p.map(one, [m for m in MUTS if not sys.argv[1:] or m[0] in sys.argv[1:]]):
            print(*x, flush=True)
