S = 'pysim/sim/simulator.py'; L = 'pysim/sim/logger.py'
PP = 'pysim/models/pingpong/'; TT = 'pysim/models/tag_time/'; R = 'pysim/models/rfid/'
H = R + 'handlers.py'; O = R + 'objects.py'; STD = R + 'epcstd.py'; CF = R + 'configurator.py'
MUTS = [
 ('k-idwrap1000', 'C02,C05', S, "event_id = next(self._next_id)  #", "event_id = next(self._next_id) % 1000  #"),
 ('k-idwrap65536', 'C02,C05', S, "event_id = next(self._next_id)  #", "event_id = next(self._next_id) % 65536  #"),
 ('k-stride', 'C03', S, "elif self._max_real_time is not None and self.real_time_elapsed", "elif self._max_real_time is not None and self._num_events_served % 32 == 0 and self.real_time_elapsed"),
 ('k-inf', 'C02', S, "        if delay is not None:\n", "        if delay == float('inf'):\n            return None\n        if delay is not None:\n"),
 ('k-call-deque', 'C01', S, "            return self._queue.push(self._sim_time + delay, (handler, args, msg))", "            return self._queue.push(self._sim_time + (delay or -1e-300), (handler, args, msg))"),
 ('k-smalldelay', 'C01', S, "            return self._queue.push(self._sim_time + delay, (handler, args, msg))", "            return self._queue.push(self._sim_time + (delay if delay > 1e-12 else 0), (handler, args, msg))"),
 ('k-cancel-cur', 'C02', S, "        self._event_dict.pop(event_id)\n        return time, event_id, task", "        if len(self._event_dict) > 1:\n            self._event_dict.pop(event_id)\n        else:\n            self._event_dict.clear()\n        return time, event_id, task"),
 ('k-args-tuple-once', 'C02', S, "            handler(sim, *args)\n", "            handler(sim, *args) if args else handler(sim)\n"),
 ('k-stop-msg', 'C03', S, "        self.stop_msg = msg\n", "        self.stop_msg = self.stop_msg or msg\n"),
 ('k-stop-after-limit', 'C03', S, "        self.stop_reason = ExitReason.STOPPED\n", "        self.stop_reason = self.stop_reason or ExitReason.STOPPED\n"),
 ('k-lhandler-before', 'C03', S, "            handler(sim, *args)\n            self._num_events_served += 1\n            self.lhandler = handler\n", "            self.lhandler = handler\n            handler(sim, *args)\n            self._num_events_served += 1\n"),
 ('k-count-init', 'C03', S, "            self._num_events_served += 1\n", "            self._num_events_served += 0 if self._user_stop and self.stop_msg else 1\n"),
 ('k-neg-zero', 'C04', S, "            if delay < 0:", "            if delay < 0 and self._sim_time + delay < self._sim_time:"),
 ('k-fin-truthy', 'C03', S, "        if self._finalize:\n", "        if self._finalize and self._num_events_served:\n"),
 ('k-ctx-none', 'C06', S, "        self._context = ctx\n", "        self._context = ctx if ctx is not None else self._context\n"),
 ('k-args-list', 'C04', S, "        if not isinstance(args, Iterable):", "        if not isinstance(args, (tuple, list, str, dict, set)) and not hasattr(args, '__iter__') and not callable(args):"),
 ('k-cls-queue', 'C06', [(S, "        self._event_list = []\n        self._event_dict = {}\n        self._next_id = itertools.count()\n", "        self._event_list = []\n        self._event_dict = {}\n        self._next_id = itertools.count()\n        EventQueue.current = self\n"), (S, "        if event_id in self._queue._event_dict:\n            self._queue.cancel(event_id)\n", "        if event_id in self._queue._event_dict:\n            EventQueue.current.cancel(event_id)\n")]),
 ('k-future', 'C02', S, "                if event[1] in self._event_dict]", "                if event[1] in self._event_dict and event[-1] is not None][:1000]"),
 ('q-pop-many', 'C05', S, "        while task is None:\n", "        if task is None:\n"),
 ('q-cancel-none', 'C05', S, "            event[-1] = None\n            return (event)", "            event[-1] = None\n            if self._event_list and self._event_list[0] is event:\n                heapq.heappop(self._event_list)\n            return (event)"),
 ('q-cancel-last', 'C05', S, "            event[-1] = None\n            return (event)", "            event[-1] = None\n            if self._event_list and self._event_list[-1] is event:\n                self._event_list.pop()\n            return (event)"),
 ('q-cancel-remove', 'C05', S, "            event[-1] = None\n            return (event)", "            event[-1] = None\n            k = self._event_list.index(event)\n            self._event_list[k] = self._event_list[-1]\n            self._event_list.pop()\n            return (event)"),
 ('q-clear-next', 'C05', S, "        self._event_list.clear()\n        self._event_dict.clear()", "        self._event_list.clear()\n        self._event_dict = {}"),
 ('q-task-none', 'C05', S, "        while task is None:\n", "        while not task:\n"),
 ('q-task-falsy2', 'C05', S, "            event[-1] = None\n            return (event)", "            event[-1] = None\n            return event if event_id else None"),
 ('l-file-level0', 'C07', L, "f_handler.setLevel(config.file_level or config.level)", "f_handler.setLevel(config.level if config.file_level < config.level else config.file_level)"),
 ('l-mode-a', 'C07', L, "mode = 'w')", "mode = 'a')"),
 ('l-noclose-dup', 'C07', L, "        self._logger.handlers = []\n", "        self._logger.handlers = [h for h in self._logger.handlers if isinstance(h, logging.FileHandler) and config.file_name is None]\n"),
 ('l-runid-cached', 'C07', L, '        """Настроить функцию получения модельного времени."""\n        self.time_getter = fn', '        """Настроить функцию получения модельного времени."""\n        self.time_getter = self.time_getter if self._setup_was_called else fn'),
 ('l-dirs', 'C07', L, "        ext_pos = file_name.rfind('.')\n", "        ext_pos = file_name.find('.')\n"),
 ('l-log-level', 'C07', L, "        self._logger.log(\n            level, msg", "        self._logger.log(\n            min(level, logging.CRITICAL), msg"),
 ('l-exc', 'C07', L, "        self._logger.exception(\n", "        self._logger.warning(\n"),
 ('l-propagate', 'C07', L, "        self._logger.propagate = False\n", "        self._logger.propagate = config.use_console\n"),
 ('l-sep', 'C07', L, "        return file_name + sep + str(run_id)", "        return file_name + (sep or '_') + str(run_id)"),
 ('l-setup-flag', 'C07', L, "        if self._setup_was_called and not force_run:", "        if self._setup_was_called and not force_run or config is None and self._logger.handlers:"),
 ('l-color-level', 'C07', L, "        if log_fmt is None:  # нестандартный уровень - без цвета\n            return super().format(record)", "        if log_fmt is None:\n            log_fmt = self.FORMATS[max(k for k in self.FORMATS if k <= record.levelno)]"),
 ('p-num-wrap', 'C08', PP + 'model.py', "        self.number += 1\n", "        self.number = (self.number + 1) % 1_000_000\n"),
 ('p-ack-late', 'C08,C09', PP + 'model.py', "        if self.num_pings_sent > 0 and not self.was_acknowledged:\n            self.num_missed += 1\n        self.was_acknowledged = False\n", "        if self.num_pings_sent > 1 and not self.was_acknowledged:\n            self.num_missed += 1\n        self.was_acknowledged = False\n"),
 ('p-interval0', 'C08', PP + 'model.py', "        sim.schedule(self.interval, self.handle_timeout, )\n", "        sim.schedule(self.interval or self.channel.delay, self.handle_timeout, )\n"),
 ('p-burst', 'C08', PP + 'model.py', "        if random.random() > self.loss_prob:\n", "        self.r = random.random() if ping.number % 2 == 0 or not hasattr(self, 'r') else self.r\n        if self.r > self.loss_prob:\n"),
 ('p-loss-runs', 'C08', PP + 'model.py', "        if random.random() > self.loss_prob:\n", "        p, self.p = getattr(self, 'p', self.loss_prob), self.loss_prob\n        if random.random() > p or self.__dict__.update(p=self.loss_prob * 1.5):\n"),
 ('p-delay-sum', 'C09', PP + 'model.py', "        self.delays_list.append(self.delay)\n", "        if packet.number != getattr(self, 'n', None) or len(self.delays_list) < 1000:\n            self.delays_list.append(self.delay)\n        self.n = packet.number\n"),
 ('p-miss', 'C09', PP + 'handlers.py', "            model.client.num_missed / model.client.num_pings_sent\n", "            1 - model.client.num_acknowledged / model.client.num_pings_sent\n"),
 ('p-avg-median', 'C09', PP + 'handlers.py', "statistics.mean(model.channel.delays_list)", "statistics.fmean(model.channel.delays_list[:10000])"),
 ('t-chunks-reset', 'C10', TT + 'model.py', "            if self.scenario == 3:\n                sim.context.chunks_passed = 0\n", "            if self.scenario == 3:\n                sim.context.chunks_passed -= sim.context.chunks_number if sim.context.num_transmissions % 7 else sim.context.chunks_number - 0\n"),
 ('t-scen1-chunk', 'C10', TT + 'model.py', "            next_state = 0\n            sim.schedule(\n", "            next_state = 0 if self.code < 3 or self.num_pakage_sent % 3 else 2\n            sim.schedule(\n"),
 ('t-prob-small', 'C10', TT + 'model.py', "            if random.random() > self.probability:\n", "            if random.random() > max(self.probability, 1e-3):\n"),
 ('t-max1', 'C10', TT + 'model.py', "sim.context.num_transmissions < self.max_transmisions):", "sim.context.num_transmissions < max(2, self.max_transmisions)):"),
 ('t-stick', 'C10', TT + 'model.py', "            if random.random() > self.probability:\n", "            self.tries = getattr(self, 'tries', 0) + 1\n            if self.tries % 50 and random.random() > self.probability:\n"),
 ('mc-eq', 'C11', TT + 'mc.py', "                if rand_var < elem:", "                if rand_var <= elem and elem > 1e-3:"),
 ('mc-cap', 'C11', TT + 'mc.py', "        while current_state < num_states - 1:\n", "        steps = 0\n        while current_state < num_states - 1 and steps < 1000:\n            steps += 1\n"),
 ('mc-shared', 'C11', TT + 'mc.py', "            rand_var = np.random.random()\n", "            rand_var = np.random.random() if current_state != 1 else (rand_var * 7) % 1\n"),
 ('mc3-n', 'C11', TT + 'mc.py', "    n = len(probabilities) + 1\n", "    probabilities = list(probabilities)[:6]\n    n = len(probabilities) + 1\n"),
 ('an-third', 'C12', TT + 'analitical_model.py', "        chunk_count * calculate_second_case([chunk_phase])", "        max(chunk_count, 2) * calculate_second_case([chunk_phase])"),
 ('an-underflow', 'C12', TT + 'analitical_model.py', "        res += t / success if success > 0 else np.inf", "        res += t / max(success, 1e-12) if success > 0 else np.inf"),
 ('an-conv', 'C12', TT + 'analitical_model.py', "                (probs[cases][state_number], t[cases][state_number])", "                (probs[cases][state_number], t[min(cases, 1)][state_number])"),
 ('cp-m', 'C13', TT + 'calculate_params.py', "    for i in range(chunks_number):\n        t_chunk = T1_2 + params['Read'] + params['Data'][i]", "    for i in range(chunks_number):\n        t_chunk = T1_2 + params['Read'] + params['Data'][min(i, 8)]"),
 ('cp-words', 'C13', TT + 'calculate_params.py', "    commands['read'] = p.Read(p.MemoryBank.TID, 0, 4, rn=0x5555, crc=0x5555)", "    commands['read'] = p.Read(p.MemoryBank.TID, 128, 4, rn=0x5555, crc=0x5555)"),
 ('cp-one', 'C13', TT + 'calculate_params.py', "    if chunks_number > 1:\n        words_number_in_one_chunk", "    if chunks_number > 1 and words_number > chunks_number:\n        words_number_in_one_chunk"),
]
MUTS += [('l-unfix', 'C07', L, "        if not self._logger.handlers:\n", "        if False:\n")]
