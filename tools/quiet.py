"""Behaviour-preserving edits: no check may raise an alarm on any of them.

  quiet.py [--only NAME] [CHECK ...]     all edits in one scratch copy
"""
import os, re, shutil, subprocess, sys, tempfile
SIM = 'pysim/sim/simulator.py'
PPM = 'pysim/models/pingpong/model.py'
PPH = 'pysim/models/pingpong/handlers.py'
TT = 'pysim/models/tag_time/model.py'
MC = 'pysim/models/tag_time/mc.py'
H = 'pysim/models/rfid/handlers.py'
O = 'pysim/models/rfid/objects.py'
STD = 'pysim/models/rfid/epcstd.py'
EDITS = [
 ('loop', SIM, '''        while not self._queue.empty and not self.stop_conditions():
            t, event_id, item = self._queue.pop()
            self._sim_time = t
            handler, args, msg = item
            handler(sim, *args)
            self._num_events_served += 1
            self.lhandler = handler
''', '''        while not (self.stop_conditions() or self._queue.empty):
            self._run_next(sim)
'''),
 ('loop', SIM, '''    @property
    def real_time_elapsed(self):
        return time.time() - self._t_start
''', '''    def _run_next(self, sim):
        """Выполнить ближайшее событие."""
        self._sim_time, _, (handler, args, _) = self._queue.pop()
        handler(sim, *args)
        self.lhandler = handler
        self._num_events_served = self._num_events_served + 1

    @property
    def real_time_elapsed(self):
        started = self._t_start
        return time.time() - started
'''),
 ('conditions', SIM, '''        elif (self._max_num_events is not None and
                self._num_events_served >= self._max_num_events):
            self.stop_reason = ExitReason.REACHED_NUM_EVENTS_LIMIT
            return True
        elif self._user_stop:
            return True
''', '''        if not (self._max_num_events is None or
                self._num_events_served < self._max_num_events):
            self.stop_reason = ExitReason.REACHED_NUM_EVENTS_LIMIT
            return True
        return self._user_stop
'''),
 ('schedule', SIM, '''        if delay is not None:
            if delay < 0:
                raise SchedulingInPastError(f"delay = {delay} < 0")
            return self._queue.push(self._sim_time + delay, (handler, args, msg))
        return None
''', '''        if delay is None:
            return None
        if delay < 0:
            raise SchedulingInPastError(f"delay = {delay} < 0")
        due = self.get_model_time() + delay
        return self._queue.push(due, (handler, args, msg))
'''),
 ('cancel', SIM, '''        if event_id in self._queue._event_dict:
            self._queue.cancel(event_id)
            return 1
        return 0
''', '''        known = event_id in self._queue._event_dict
        if known:
            self._queue.cancel(event_id)
        return int(known)
'''),
 ('pp-timeout', PPM, '''        if self.num_pings_sent > 0 and not self.was_acknowledged:
            self.num_missed += 1
        self.was_acknowledged = False
        self.number += 1
        if self.max_pings is None or self.num_pings_sent < self.max_pings:
            sim.logger.debug("client timeout, sending ping #%d", self.number)
            packet = Packet(
                sender=self,
                receiver=self.server,
                number=self.number
            )
            sim.call(self.channel.send, (packet,))
            self.num_pings_sent += 1
        else:
            # Если достигли максимального числа пингов, останавливаемся.
            sim.logger.info("reached max pings (%d), stopping", self.max_pings)
            sim.stop()
''', '''        self._count_missed()
        self.was_acknowledged = False
        self.number += 1
        if self.max_pings is not None and self.num_pings_sent >= self.max_pings:
            # Если достигли максимального числа пингов, останавливаемся.
            sim.logger.info("reached max pings (%d), stopping", self.max_pings)
            sim.stop()
            return
        sim.logger.debug("client timeout, sending ping #%d", self.number)
        self.num_pings_sent += 1
        sim.call(self.channel.send, (self._new_packet(),))

    def _new_packet(self):
        return Packet(sender=self, receiver=self.server, number=self.number)

    def _count_missed(self):
        if not self.was_acknowledged and self.num_pings_sent:
            self.num_missed += 1
'''),
 ('pp-loss', PPM, '''        if random.random() > self.loss_prob:
            # Пакет не потерян (1 >= X > Pl <=> 0 <= X < 1 - Pl)
            sim.logger.debug("ping successfully reached the server")
            sim.schedule(self.delay, self.handle_service_end, (ping,))
        else:
            # Если тут - пакет потерян
            sim.logger.debug("ping lost on channel")
            sim.schedule(
                sim.context.client.interval,
                sim.context.client.handle_timeout
            )
            sim.context.client.intervals_list.append(
                sim.context.client.interval
            )
''', '''        if random.random() <= self.loss_prob:
            sim.logger.debug("ping lost on channel")
            client = sim.context.client
            client.intervals_list.append(client.interval)
            sim.schedule(client.interval, client.handle_timeout)
            return
        sim.logger.debug("ping successfully reached the server")
        sim.schedule(self.delay, self.handle_service_end, [ping])
'''),
 ('pp-result', PPH, '''    # noinspection PyTypeChecker
    model: Model = sim.context

    return Result(
        avg_interval=statistics.mean(model.client.intervals_list),
        avg_delay=statistics.mean(model.channel.delays_list),
''', '''    model: Model = sim.context
    intervals = list(model.client.intervals_list)

    return Result(
        avg_interval=sum(intervals) / len(intervals),
        avg_delay=statistics.mean(model.channel.delays_list),
'''),
 ('tt-attempt', TT, '''        if (self.max_transmisions is None or
                sim.context.num_transmissions < self.max_transmisions):
            sim.logger.debug(
                f'Время обработки вышло, отправка пакета № {packet.number}'
            )
            if random.random() > self.probability:
                # Метка осталась в текущем состоянии (неудача)
                self.faild_state_change(sim, packet)
            else:
                # Метка изменила состояние (удача)
                self.success_state_change(sim, packet)
        else:
            sim.logger.info(
                "reached max pings (%d), stopping", self.max_transmisions
            )
            sim.stop()
''', '''        done = sim.context.num_transmissions
        if self.max_transmisions is not None and done >= self.max_transmisions:
            sim.logger.info(
                "reached max pings (%d), stopping", self.max_transmisions
            )
            sim.stop()
            return
        sim.logger.debug(
            f'Время обработки вышло, отправка пакета № {packet.number}'
        )
        ok = random.random() <= self.probability
        change = self.success_state_change if ok else self.faild_state_change
        change(sim, packet)
'''),
 ('tt-state', TT, '''        if state_number == STATE_CODES['Arbitrate']:
            return self.arbitrate
        elif state_number == STATE_CODES['Reply']:
            return self.reply
        elif state_number == STATE_CODES['Acknowledged']:
            return self.acknowledged
        elif state_number == STATE_CODES['Secured']:
            return self.secured
        elif state_number == STATE_CODES['Final']:
            return self.final
''', '''        return (self.arbitrate, self.reply, self.acknowledged,
                self.secured, self.final)[state_number]
'''),
 ('mc', MC, '''            for index, elem in enumerate(transition_matrix[current_state]):
                if rand_var < elem:
                    current_state = index
                    break
''', '''            row = np.asarray(transition_matrix[current_state])
            above = np.flatnonzero(row > rand_var)
            if len(above):
                current_state = int(above[0])
'''),
 ('mc', MC, '''    return sum(absorption_times)/len(absorption_times)*SEC2MILLISEC
''', '''    mean = sum(absorption_times) / num_trials
    return mean * SEC2MILLISEC
'''),
 ('mc-probs', MC, '''    matrix_list = []
    for i in range(len(probs)):
        if scenario == 1:
            matrix_list.append(create_matrix_1(*probs[i]))
        elif scenario == 2:
            matrix_list.append(create_matrix_2(*probs[i]))
        elif scenario == 3:
            matrix_list.append(create_matrix_3(probs[i]))
    return matrix_list
''', '''    create = {1: lambda p: create_matrix_1(*p),
              2: lambda p: create_matrix_2(*p),
              3: create_matrix_3}[scenario]
    return [create(p) for p in probs]
'''),
 ('mc-probs', MC, '''    res_time = []
    for i in range(len(probs)):
        res_time.append(monte_carlo(matrix_list[i], times[i], transmissions))

    return res_time
''', '''    return [monte_carlo(matrix, stay, transmissions)
            for matrix, stay in zip(matrix_list, times)]
'''),
 ('power', H, '''    for tag in tags:
        power = medium.estimate_tag_rx_power(reader, tag, time)
        tag.set_power(time, power)
        tag.pos += tag.velocity * tag.normalized_direction * (
            time - tag.last_pos_update
        )
        tag.last_pos_update = time
''', '''    for tag in tags:
        tag.set_power(time, medium.estimate_tag_rx_power(reader, tag, time))
        _move(tag, time)
'''),
 ('power', H, '''def _build_transaction(kernel, reader, reader_frame):
''', '''def _move(tag, time):
    dt = time - tag.last_pos_update
    tag.pos = tag.pos + tag.normalized_direction * (tag.velocity * dt)
    tag.last_pos_update = time


def _build_transaction(kernel, reader, reader_frame):
'''),
 ('build', H, '''    all_responses = ((tag, tag.receive(reader_frame)) for tag in ctx.tags)
    tag_frames = [(tag, frame) for (tag, frame) in all_responses
                  if frame is not None]

    if ctx.tags:
        if isinstance(reader_frame.command, std.Query):
            stat = kernel.context.statistics
            participating_tags = [tag for tag in ctx.tags if tag.state in
                                  {Tag.State.ARBITRATE, Tag.State.REPLY}]
            for tag in participating_tags:
                stat.get_tag_record(tag).num_rounds_attained += 1
''', '''    tag_frames = []
    query = isinstance(reader_frame.command, std.Query)
    for tag in ctx.tags:
        frame = tag.receive(reader_frame)
        if frame is not None:
            tag_frames.append((tag, frame))
        if query and tag.state in (Tag.State.ARBITRATE, Tag.State.REPLY):
            ctx.statistics.get_tag_record(tag).num_rounds_attained += 1
'''),
 ('start', H, '''    ctx.transaction = transaction
    ctx.transaction.timeout_event_id = kernel.schedule(
        transaction.duration, finish_transaction, (transaction, ))
    if transaction.reply_start_time is not None:
        dt = transaction.reply_start_time - kernel.time
        transaction.response_start_event_id = kernel.schedule(
            dt, update_power_at_response_start, (transaction, )
        )

    # Scheduling turning off
''', '''    _start_transaction(kernel, transaction)

    # Scheduling turning off
'''),
 ('start', H, '''    ctx.transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
    transaction = ctx.transaction
    transaction.timeout_event_id = kernel.schedule(
        transaction.duration, finish_transaction, (transaction, )
    )
    if transaction.reply_start_time is not None:
        dt = transaction.reply_start_time - kernel.time
        transaction.response_start_event_id = kernel.schedule(
            dt, update_power_at_response_start, (transaction, )
        )
''', '''    _start_transaction(
        kernel, _build_transaction(kernel, reader, cmd_frame))


def _start_transaction(kernel, transaction):
    kernel.context.transaction = transaction
    if transaction.reply_start_time is not None:
        transaction.response_start_event_id = kernel.schedule(
            transaction.reply_start_time - kernel.time,
            update_power_at_response_start, (transaction, )
        )
    transaction.timeout_event_id = kernel.schedule(
        transaction.duration, finish_transaction, (transaction, )
    )
'''),
 ('adjust', H, '''        if reader.q > 0 and reader.q <= 15:
            reader.q_fp = max(0, reader.q_fp-reader.adjust_delta)
''', '''        if 0 < reader.q <= 15:
            reader.q_fp = reader.q_fp - reader.adjust_delta
            if reader.q_fp < 0:
                reader.q_fp = 0
'''),
 ('on', H, '''    reader.turn_off()
    _update_power(kernel.time, reader, ctx.tags, None, ctx.medium,
                  ctx.statistics)

    # Clearing current transaction
    if ctx.transaction is not None:
        kernel.cancel(ctx.transaction.response_start_event_id)
        kernel.cancel(ctx.transaction.timeout_event_id)
        ctx.transaction = None
''', '''    transaction, ctx.transaction = ctx.transaction, None
    if transaction is not None:
        kernel.cancel(transaction.timeout_event_id)
        kernel.cancel(transaction.response_start_event_id)
    reader.turn_off()
    _update_power(kernel.time, reader, ctx.tags, None, ctx.medium,
                  ctx.statistics)
'''),
 ('remove', H, '''    ctx.tags.remove(tag)
    kernel.logger.info(f'(x) tag {tag.tag_id} died')
    ctx.num_tags_simulated += 1
    if (ctx.max_tags_num is not None and
            ctx.num_tags_simulated >= ctx.max_tags_num):
        kernel.stop()
    # Closing statistics record (and the read record, if it is still open)
    ctx.statistics.get_tag_record(tag).close_tag_read_record()
    ctx.statistics.close_tag_record(tag)
''', '''    # Closing statistics record (and the read record, if it is still open)
    ctx.statistics.get_tag_record(tag).close_tag_read_record()
    ctx.statistics.close_tag_record(tag)
    ctx.tags = [other for other in ctx.tags if other is not tag]
    kernel.logger.info(f'(x) tag {tag.tag_id} died')
    ctx.num_tags_simulated += 1
    limit = ctx.max_tags_num
    if limit is not None and limit <= ctx.num_tags_simulated:
        kernel.stop()
'''),
 ('receive', O, '''        if isinstance(cmd, std.Query):
            return self.process_query(frame)
        elif isinstance(cmd, std.QueryRep):
            return self.process_query_rep(frame)
        elif isinstance(cmd, std.QueryAdjust):
            return self.process_query_adjust(frame)
        elif isinstance(cmd, std.Ack):
            return self.process_ack(frame)
        elif isinstance(cmd, std.ReqRN):
            return self.process_reqrn(frame)
        elif isinstance(cmd, std.Read):
            return self.process_read(frame)
        else:
            raise TypeError(f'unexpected command "{frame}"')
''', '''        process = {
            std.Query: self.process_query, std.QueryRep: self.process_query_rep,
            std.QueryAdjust: self.process_query_adjust, std.Ack: self.process_ack,
            std.ReqRN: self.process_reqrn, std.Read: self.process_read,
        }.get(type(cmd))
        if process is None:
            raise TypeError(f'unexpected command "{frame}"')
        return process(frame)
'''),
 ('setpower', O, '''        if self.state is Tag.State.OFF:
            if power is not None and power > self.sensitivity:
                self._power_on(time, power)
                self._power_update_time = time
        else:
            if power is None or power < self.sensitivity:
                self._power_off(time)
            else:
                self._power = power
                self._power_update_time = time
''', '''        off = self.state is Tag.State.OFF
        if off and power is not None and power > self.sensitivity:
            self._power_on(time, power)
        elif not off and (power is None or power < self.sensitivity):
            self._power_off(time)
        elif not off:
            self._power_update_time = time
            self._power = power
'''),
 ('rn', O, '''        if self._slot_counter == 0 and self.state is Tag.State.ARBITRATE:
            self._set_state(Tag.State.REPLY)
            self._rn = np.random.randint(0, 0x10000)
            return std.TagFrame(self._preamble, std.QueryReply(self._rn))
        else:
''', '''        if self._slot_counter == 0 and self.state is Tag.State.ARBITRATE:
            return self._reply_in_slot()
        else:
'''),
 ('rn', O, '''    def process_query_adjust(self, frame):
''', '''    def _reply_in_slot(self):
        self._rn = np.random.randint(65536)
        self._set_state(Tag.State.REPLY)
        return std.TagFrame(self._preamble, std.QueryReply(self._rn))

    def process_query_adjust(self, frame):
'''),
 ('query', O, '''        self._slot_counter = np.random.randint(0, pow(2, self.q))
        self.logger.warning(
            f'Внимание! Метка {self._tag_id} выбрала '
            f'номер слота: {self._slot_counter}'
        )
        self._preamble = std.create_tag_preamble(self.encoding, self.trext)
        if self._slot_counter == 0:
            self._set_state(Tag.State.REPLY)
            self._rn = np.random.randint(0, 0x10000)
            return std.TagFrame(self._preamble, std.QueryReply(self._rn))
        else:
            self._set_state(Tag.State.ARBITRATE)
            return None
''', '''        self._preamble = std.create_tag_preamble(self.encoding, self.trext)
        self._slot_counter = np.random.randint(2 ** self.q)
        self.logger.warning(
            f'Внимание! Метка {self._tag_id} выбрала '
            f'номер слота: {self._slot_counter}'
        )
        if self._slot_counter != 0:
            self._set_state(Tag.State.ARBITRATE)
            return None
        self._set_state(Tag.State.REPLY)
        self._rn = np.random.randint(0x10000)
        return std.TagFrame(self._preamble, std.QueryReply(self._rn))
'''),
 ('slots', O, '''        def slots_gen():
            yield _ReaderSlot(self, 0, Reader.State.QUERY)
            for i in range(1, round(pow(2, reader.q))):
                yield _ReaderSlot(self, i, Reader.State.QREP)
''', '''        def slots_gen():
            for i in range(2 ** reader.q):
                first = Reader.State.QREP if i else Reader.State.QUERY
                yield _ReaderSlot(self, i, first)
'''),
 ('off', O, '''        reader.last_rn = None
        reader.stop_round()
        reader.set_power(None)
        return None
''', '''        reader.stop_round()
        reader.set_power(None)
        reader.last_rn = None
'''),
 ('trans', O, '''            reply_durations = [f.get_duration(tag.blf) for tag, f in replies]
            self._reply_duration = np.max(reply_durations)
''', '''            self._reply_duration = max(
                frame.get_duration(tag.blf) for tag, frame in replies)
'''),
 ('trans', O, '''        p = np.random.uniform(0.0, 1.0)
        return (tag, frame, snr, ber) if p <= receive_probability else \\
            (None, None, None, None)
''', '''        if np.random.uniform(0.0, 1.0) > receive_probability:
            return None, None, None, None
        return tag, frame, snr, ber
'''),
 ('dur', STD, '''        n_bits = {'0': 0, '1': 0}
        for b in encoded_string:
            n_bits[b] += 1
        d0 = self.preamble.data0
        d1 = self.preamble.data1
        return n_bits['0'] * d0 + n_bits['1'] * d1
''', '''        ones = encoded_string.count('1')
        zeros = len(encoded_string) - ones
        return ones * self.preamble.data1 + zeros * self.preamble.data0
'''),
]
if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'quiet2.py')):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import quiet2
    EDITS += quiet2.EDITS

def main(args):
    only = batch = None
    if '--batch' in args:
        k = args.index('--batch')
        batch, args = args[k + 1], args[:k] + args[k + 2:]
    if '--only' in args:
        k = args.index('--only')
        only, args = args[k + 1], args[:k] + args[k + 2:]
    tmp = tempfile.mkdtemp(prefix='quiet-')
    copy = tmp + '/repo'
    try:
        shutil.copytree('/repo', copy)
        first = len(EDITS)
        if batch == '4':
            import quiet4
            EDITS[:] = quiet4.EDITS
        elif batch == '3':
            import quiet3
            EDITS[:] = quiet3.EDITS
        elif batch == '2':
            import quiet2
            first = EDITS.index(quiet2.EDITS[0])
            del EDITS[:first]
        elif batch == '1':
            import quiet2
            del EDITS[EDITS.index(quiet2.EDITS[0]):]
        for name, path, old, new, *how in EDITS:
            if only and name != only:
                continue
            text = open(f'{copy}/{path}').read()
            if how == ['all']:
                assert old in text
                text = text.replace(old, new)
            elif how == ['word']:
                assert re.search(r'(?<![a-zA-Z_])' + old + r'\b', text)
                text = re.sub(r'(?<![a-zA-Z_])' + old + r'\b', new, text)
            else:
                assert text.count(old) == 1, (name, path, text.count(old), old[:80])
                text = text.replace(old, new)
            open(f'{copy}/{path}', 'w').write(text)
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests/simulator'],
                           cwd=copy, capture_output=True, text=True)
        print(r.stdout.strip().splitlines()[-1], flush=True)
        for c in args or [c for c in ('C%02d' % k for k in range(1, 41)) if '"%s"' % c in open('/verif/harness/registry.py').read()]:
            r = subprocess.run(['bash', '/verif/check.sh', c], capture_output=True, text=True,
                               env={**os.environ, 'VERIF_REPO': copy, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            if 'unknown' in r.stdout + r.stderr and r.returncode == 2:
                continue
            print(c, r.returncode, (r.stdout.strip().splitlines() or [''])[-1][:200] if r.returncode == 0
                  else '\n'.join(x[:700] for x in r.stdout.splitlines() if not x.startswith('"{'))[-2500:] + r.stderr[-500:], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

main(sys.argv[1:])
