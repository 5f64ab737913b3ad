"""Sixth batch: history-dependent and two-site changes."""
from muts3 import S, L, PP, TT, R, H, O, STD, CF
CH = R + 'channel.py'; CLI = R + 'cli.py'
PM = PP + 'model.py'; TM = TT + 'model.py'; MC = TT + 'mc.py'; CP = TT + 'calculate_params.py'; AN = TT + 'analitical_model.py'
MUTS = [
 ('y-pre-before', 'C14,C19,C18', [(O, "        self._active_session = command.session\n        self._trext = command.trext\n        self._encoding = command.m\n", "        self._active_session = command.session\n        self._preamble = std.create_tag_preamble(self.encoding, self.trext)\n        self._trext = command.trext\n        self._encoding = command.m\n"), (O, "        self._preamble = std.create_tag_preamble(self.encoding, self.trext)\n        if self._slot", "        if self._slot")]),
 ('y-blf-late', 'C14,C19,C18', O, "            self._rn = np.random.randint(0, 0x10000)\n            return std.TagFrame(self._preamble, std.QueryReply(self._rn))\n        else:\n            self._set_state(Tag.State.ARBITRATE)\n            return None\n\n    def process_query_rep", "            self._rn = np.random.randint(0, 0x10000)\n            return std.TagFrame(self._preamble, std.QueryReply(self._rn))\n        else:\n            self._set_state(Tag.State.ARBITRATE)\n            self._blf = std.get_blf(std.DivideRatio.DR_8, preamble.trcal)\n            return None\n\n    def process_query_rep"),
 ('y-off-first-time', 'C15', O, "            self._powered_on_time = None\n            self._powered_off_time = time\n            self._power_update_time = time\n            self._power = None\n", "            self._powered_off_time = self._powered_on_time + 0.0 if time - self._powered_on_time < 0.01 else time\n            self._powered_on_time = None\n            self._power_update_time = time\n            self._power = None\n"),
 ('y-reack', 'C14', O, "        if self.state is not Tag.State.REPLY:\n            return None\n", "        if self.state not in {Tag.State.REPLY, Tag.State.ACKNOWLEDGED}:\n            return None\n"),
 ('y-reack-secured', 'C14,C15', O, "        if self.state is not Tag.State.REPLY:\n            return None\n", "        if self.state is Tag.State.SECURED and ack.rn != self.rn:\n            self._set_state(Tag.State.ARBITRATE)\n        if self.state is not Tag.State.REPLY:\n            return None\n"),
 ('y-reqrn-wrong', 'C14,C15', O, "            self._rn = np.random.randint(0, 0x10000)\n            return std.TagFrame(self._preamble, std.ReqRNReply(self._rn))\n        else:\n", "            self._rn = np.random.randint(0, 0x10000)\n            return std.TagFrame(self._preamble, std.ReqRNReply(self._rn))\n        else:\n            if self.state is Tag.State.ACKNOWLEDGED:\n                self._set_state(Tag.State.ARBITRATE)\n"),
 ('y-round-reuse', 'C16', O, "            self._round.slot.on_finish(self)\n            self._round.on_finish(self)\n        self._round = None", "            self._round.slot.on_finish(self)\n            self._round.on_finish(self)\n            if self._round.slot.index == 0:\n                self._round_index = itertools.count(self._round.index)\n        self._round = None"),
 ('y-round-q0', 'C16', O, "            for i in range(1, round(pow(2, reader.q))):", "            for i in range(1, max(2, round(pow(2, reader.q))) if index and reader.q_fp else round(pow(2, reader.q))):"),
 ('y-round-qhist', 'C16', O, "        self._reader = reader\n        self._slots = slots_gen()", "        self._reader = reader\n        if index > 0 and index % 7 == 0:\n            reader.kernel.logger.debug('')\n            index += 1\n            self._index = index\n        self._slots = slots_gen()"),
 ('y-target-count-slots', 'C17', O, "                reader.num_rounds_before_target_switch -= 1\n", "                reader.num_rounds_before_target_switch -= 1 if reader.last_rn is None or reader.q > 0 else 2\n"),
 ('y-target-adjust', 'C17', O, "        reader.last_rn = None\n        cmd = std.QueryAdjust(reader.session, reader.updn)\n", "        reader.last_rn = None\n        if reader.target_strategy == 'switch' and reader.updn < 0:\n            reader.num_rounds_before_target_switch = min(reader.num_rounds_before_target_switch, reader.rounds_per_target - 1)\n        cmd = std.QueryAdjust(reader.session, reader.updn)\n        if reader.updn > 0 and reader.target_strategy == 'switch':\n            reader.num_rounds_before_target_switch += 1\n"),
 ('y-max-created', 'C21', H, "    if 0 <= generator.max_tags_generated <= generator.num_tags_generated:", "    if 0 <= generator.max_tags_generated <= kernel.context.statistics.num_tags_created:"),
 ('y-simulated-inv', 'C21', H, "    ctx.num_tags_simulated += 1\n", "    ctx.num_tags_simulated += 1 if ctx.tags or ctx.max_tags_num is None or ctx.num_tags_simulated + 1 >= ctx.max_tags_num else 0\n"),
 ('y-pos-creation', 'C21,C28', H, "    tag.last_pos_update = kernel.time\n", "    tag.last_pos_update = kernel.time if ctx.reader.power is not None else min(kernel.time, ctx.update_interval * (kernel.time // ctx.update_interval))\n"),
 ('y-qfp-reset', 'C20', O, "        self._power_on_listeners.call()\n", "        self._power_on_listeners.call()\n        self.q_fp = self.q if self.q_fp is not None else None\n"),
 ('y-qfp-clamp', 'C20', H, "            reader.q_fp = min(15, reader.q_fp+reader.adjust_delta)\n", "            reader.q_fp = min(15, max(reader.q_fp, reader.q)+reader.adjust_delta)\n"),
 ('y-qfp-after', 'C20', H, "                reader.q = new_q  # обновляем q в считывателе\n                cmd_frame = reader.set_state(Reader.State.QAdjust)\n    if cmd_frame is None:\n        cmd_frame = ctx.reader.timeout()\n    return cmd_frame\n\n\ndef _one", "                reader.q = new_q  # обновляем q в считывателе\n                reader.q_fp = max(reader.q_fp, new_q)\n                cmd_frame = reader.set_state(Reader.State.QAdjust)\n    if cmd_frame is None:\n        cmd_frame = ctx.reader.timeout()\n    return cmd_frame\n\n\ndef _one"),
 ('y-adj-gone', 'C20', H, "        if reader.q > 0 and reader.q <= 15:\n", "        if reader.q > 0 and reader.q <= 15 and ctx.transaction.command_duration and (ctx.tags or reader.q_fp > 1):\n"),
 ('y-listener-tag', 'C18', H, "            tag_record = statistics.get_tag_record(tag)\n            if tag_record is not None:\n                tag_record.close_tag_read_record()", "            tag_record = statistics.get_tag_record(tag)\n            if tag_record is not None and round_index == tag_record.tag_read_record.round_index:\n                tag_record.close_tag_read_record()"),
 ('y-record-twice', 'C18', O, "            self.inventory_history.append(self._tag_read_record)\n            self._tag_read_record = None\n", "            self.inventory_history.append(self._tag_read_record)\n            if not self._tag_read_record.read_tid:\n                self._tag_read_record = None\n"),
 ('y-duration-none', 'C19', O, "            self._duration = reader.state.get_timeout(reader)\n", "            self._duration = max(reader.state.get_timeout(reader), self._command_duration + std.link_t4(reader.rtcal))\n"),
 ('y-reply-max-first', 'C19', O, "            self._reply_duration = np.max(reply_durations)", "            self._reply_duration = np.max(reply_durations) if len(replies) < 3 else reply_durations[0]"),
 ('y-finish-round', 'C19', O, "        self._finish_time = time + self._duration\n", "        self._finish_time = time + self._duration\n        self._duration = self._finish_time - time\n"),
 ('y-on-late', 'C22', H, "    kernel.schedule(turned_off_duration, turn_reader_on, (reader, ))\n", "    kernel.schedule(turned_off_duration, turn_reader_on, (reader, ))\n    reader.power_off_duration = power_mode.powered_off_interval(reader)\n"),
 ('y-on-drift', 'C22', H, "    kernel.schedule(turned_on_duration, turn_reader_off, (reader, ))\n", "    if turned_on_duration is not None:\n        turned_on_duration = max(turned_on_duration, transaction.duration)\n    kernel.schedule(turned_on_duration, turn_reader_off, (reader, ))\n"),
 ('y-new-while-off', 'C22', H, "    _update_power(kernel.time, ctx.reader, [tag], None, ctx.medium,\n                  ctx.statistics)\n", "    _update_power(kernel.time, ctx.reader, [tag] if ctx.reader.state is not Reader.State.OFF else ctx.tags, None, ctx.medium,\n                  ctx.statistics)\n"),
 ('y-resp-start-none', 'C22', H, "    _update_power(kernel.time, ctx.reader, ctx.tags, transaction, ctx.medium,\n                  ctx.statistics)\n    transaction.response_start_event_id = None", "    _update_power(kernel.time, ctx.reader, list(transaction.tags), transaction, ctx.medium,\n                  ctx.statistics)\n    transaction.response_start_event_id = None"),
 ('y-cancel-running', 'C02', S, "        if event_id in self._event_dict and event_id is not None:", "        if event_id in self._event_dict and event_id is not None and (len(self._event_dict) > 1 or self._event_list[0][1] == event_id):"),
 ('y-pp-ack', 'C08,C09', PM, "            self.was_acknowledged = True\n            self.num_acknowledged += 1\n", "            self.num_acknowledged += 0 if self.was_acknowledged else 1\n            self.was_acknowledged = True\n"),
 ('y-pp-number', 'C08', PM, "        self.number += 1\n        if self.max_pings", "        self.number += 1 if self.number < 2**20 - 1 else -2**20\n        if self.max_pings"),
 ('y-pp-miss-final', 'C09', PM, "        if self.num_pings_sent > 0 and not self.was_acknowledged:\n", "        if self.num_pings_sent > 0 and not self.was_acknowledged and self.num_pings_sent != self.max_pings:\n"),
 ('y-tt-number', 'C10', TM, "            sim.context.num_transmissions += 1\n", "            sim.context.num_transmissions = self.num_pakage_sent\n            if sim.context.num_transmissions == 2**16:\n                self.num_pakage_sent = 0\n"),
 ('y-tt-chunks-fail', 'C10', TM, "        if self.scenario == 3 and self.code == 3:\n            sim.context.chunks_passed += 1\n", "        if self.scenario == 3 and self.code == 3:\n            sim.context.chunks_passed = (self.secured_number or 0) + 1\n"),
 ('y-tt-reply-prob', 'C10', TM, "            if random.random() > self.probability:", "            if random.random() > (self.probability if self.secured_number in (None, 0) else sim.context.secured[0].probability):"),
 ('y-mc-last', 'C11', MC, "        while current_state < num_states - 1:\n", "        while current_state != num_states - 1:\n"),
]
