from muts3 import S, L, PP, TT, R, H, O, STD, CF
CH = R + 'channel.py'; CLI = R + 'cli.py'
MUTS = [
 ('t-slot12', 'C14', O, "        self._slot_counter = np.random.randint(0, pow(2, self.q))\n        self.logger", "        self._slot_counter = np.random.randint(0, pow(2, min(self.q, 12)))\n        self.logger"),
 ('t-rn12', 'C14', O, "            self._rn = np.random.randint(0, 0x10000)\n            return std.TagFrame(self._preamble, std.QueryReply(self._rn))\n        else:\n            self._set_state(Tag.State.ARBITRATE)\n            return None", "            self._rn = np.random.randint(0, 0x1000)\n            return std.TagFrame(self._preamble, std.QueryReply(self._rn))\n        else:\n            self._set_state(Tag.State.ARBITRATE)\n            return None"),
 ('t-qrep-secured', 'C14,C15', O, "            elif self.state is not Tag.State.READY:\n                flag", "            elif self.state is Tag.State.ACKNOWLEDGED:\n                flag"),
 ('t-adj-secured', 'C15,C20', O, "            self.state in {Tag.State.ACKNOWLEDGED, Tag.State.SECURED} and\n", "            self.state in {Tag.State.ACKNOWLEDGED} and\n"),
 ('t-adj-updn0', 'C20', O, "            if 0 <= self.q + updn <= 15:\n", "            if updn and 0 <= self.q + updn <= 15:\n"),
 ('t-adj-q15', 'C20', O, "            if 0 <= self.q + updn <= 15:\n", "            if 0 <= self.q + updn < 15:\n"),
 ('t-ack-keep', 'C14', O, "            self._set_state(Tag.State.ACKNOWLEDGED)\n            return std.TagFrame(self._preamble, std.AckReply(self.epc))\n        else:\n            self._set_state(Tag.State.ARBITRATE)", "            self._set_state(Tag.State.ACKNOWLEDGED)\n            return std.TagFrame(self._preamble, std.AckReply(self.epc))\n        else:"),
 ('t-read-oldrn', 'C14', [(O, "            self._set_state(Tag.State.SECURED)\n", "            self._set_state(Tag.State.SECURED)\n            self._rn16 = self._rn\n"), (O, "        if read.rn == self.rn:\n", "        if read.rn in (self.rn, self._rn16):\n")]),
 ('t-read-ptr', 'C14', O, "            start = frame.command.word_ptr * 4\n", "            start = frame.command.word_ptr % 128 * 4\n"),
 ('t-read-cut', 'C14', O, "            content = content[start:start + frame.command.word_count * 4]", "            content = content[start:start + min(frame.command.word_count, 64) * 4]"),
 ('t-query-otherflag', 'C15', O, "            self.sessions[self._active_session] = flag.invert()\n\n        #", "            self.sessions[self._active_session] = std.InventoryFlag.B\n\n        #"),
 ('t-query-retarget', 'C15', O, "                              Tag.State.REPLY}:\n", "                              Tag.State.REPLY} and command.session is self._active_session:\n"),
 ('t-qrep-ready-off', 'C14,C22', O, "            self._active_session = None\n            self._preamble = None\n            self.logger.debug(\n                f'tag {self._tag_id} powered off", "            self._preamble = None\n            self.logger.debug(\n                f'tag {self._tag_id} powered off"),
 ('t-persist-shared', 'C15,C25', O, "                             std.Session.S3: lambda tag: tag.s3_persistence}", "                             std.Session.S3: lambda tag: tag.s2_persistence}"),
 ('t-persist-create', 'C25,C15', O, "        tag.s3_persistence = self.s3_persistence\n", "        tag.s3_persistence = self.s3_persistence or tag.s3_persistence\n"),
 ('t-pos-shared', 'C21', O, "        tag.pos = np.array(self.pos0, copy=True)", "        tag.pos = np.asarray(self.pos0, dtype=float)"),
 ('t-dir-shared', 'C21', O, "        return self.direction / np.linalg.norm(self.direction)", "        return self.direction / max(1.0, np.linalg.norm(self.direction))"),
 ('g-inc-lower', 'C21', O, "'{:1X}'.format(x + 1)", "'{:1x}'.format(x + 1)"),
 ('g-inc-carry', 'C21', O, "('0' * (len(s) - 1 - pos))", "('0' * min(2, len(s) - 1 - pos)) + s[len(s) - max(0, len(s) - 3 - pos):] * (len(s) - 3 - pos > 0)"),
 ('g-gen-cached-interval', 'C21', O, "        fn = self._next_interval[0]\n        args = self._next_interval[1:]\n        return fn(*args)", "        fn = self._next_interval[0]\n        args = self._next_interval[1:]\n        if not args:\n            self._cached = getattr(self, '_cached', None) or fn()\n            return self._cached\n        return fn(*args)"),
 ('h-max0', 'C21', H, "    if 0 <= generator.max_tags_generated <= generator.num_tags_generated:", "    if 0 < generator.max_tags_generated <= generator.num_tags_generated:"),
 ('h-stop-late', 'C21', H, "            ctx.num_tags_simulated >= ctx.max_tags_num):", "            ctx.num_tags_simulated > ctx.max_tags_num):"),
 ('h-rounds-arb', 'C21,C16', H, "                                  {Tag.State.ARBITRATE, Tag.State.REPLY}]", "                                  {Tag.State.ARBITRATE}]"),
 ('h-no-power-new', 'C22', H, "    _update_power(kernel.time, ctx.reader, [tag], None, ctx.medium,\n", "    _update_power(kernel.time, ctx.reader, ctx.tags[:-1], None, ctx.medium,\n"),
 ('h-gone-received', 'C18,C21', H, "    if frame is not None and tag not in ctx.tags:", "    if frame is not None and tag.state is Tag.State.OFF:"),
 ('h-off-late', 'C22,C18,C19', H, "        kernel.cancel(ctx.transaction.timeout_event_id)\n", "        if ctx.transaction.response_start_event_id is None:\n            kernel.cancel(ctx.transaction.timeout_event_id)\n"),
 ('h-off-tx', 'C22,C18', H, "        ctx.transaction = None\n\n", "        ctx.transaction = ctx.transaction if len(ctx.transaction.replies) > 1 else None\n\n"),
 ('h-q14', 'C20', H, "        if reader.q >= 0 and reader.q < 15:", "        if reader.q >= 0 and reader.q < 14:"),
 ('h-adj-ack', 'C20', H, "        reader.state == Reader.State.QREP\n    ):\n        if reader.q > 0", "        reader.state in (Reader.State.QREP, Reader.State.ACK)\n    ):\n        if reader.q > 0"),
 ('h-adj-power', 'C20', [(H, "                reader.updn = new_q - reader.q\n", "                reader.updn = 1 if new_q > reader.q else -1 if reader.q > 1 else 0\n")]),
 ('h-antpos', 'C18', H, "        tag_read_record.ber = ber\n", "        tag_read_record.ber = ber or 0\n"),
 ('h-tid-first', 'C18,C21', H, "        tag_read_record = ctx.statistics.get_tag_record(tag).tag_read_record\n        tag_read_record.read_tid = True", "        tag_read_record = ctx.statistics.get_tag_record(tag).tag_read_record\n        tag_read_record.read_tid = len(frame.reply.memory) > 0"),
 ('r-target-lt', 'C17', O, "            if reader.num_rounds_before_target_switch <= 0:", "            if reader.num_rounds_before_target_switch < 0:"),
 ('r-off-target', 'C17', O, "            reader.target = std.InventoryFlag.A\n            reader.num", "            reader.num"),
 ('r-t1nominal', 'C19', O, "                                  reader.read_tid_words_num, reader.last_rn)\n        t1 = std.link_t1_max(reader.rtcal, reader.trcal, reader.dr,\n                             reader.temp)", "                                  reader.read_tid_words_num, reader.last_rn)\n        t1 = std.link_t1_max(reader.rtcal, reader.trcal, reader.dr)"),
 ('r-adj-updn', 'C19', O, "            reader.session, reader.updn\n        )\n        t1", "            reader.session, 0\n        )\n        t1"),
 ('r-query-sel', 'C19', O, "            reader.trext, reader.sel, reader.session,\n            reader.target, reader.q\n        )\n        t1", "            reader.trext, reader.sel, reader.session,\n            None, reader.q\n        )\n        t1"),
 ('r-last-slot', 'C16', O, "            for i in range(1, round(pow(2, reader.q))):", "            for i in range(1, min(4096, round(pow(2, reader.q)))):"),
 ('r-off-silent', 'C16', O, "        if self._round:\n            self._round.slot.on_finish(self)\n            self._round.on_finish(self)\n", "        if self._round:\n            self._round.slot.on_finish(self)\n            if self._round.slot.index:\n                self._round.on_finish(self)\n"),
 ('r-handle', 'C16', O, "        reader.last_rn = frame.reply.rn\n        return reader.set_state(Reader.State.READ)", "        reader.last_rn = frame.reply.rn or reader.last_rn\n        return reader.set_state(Reader.State.READ)"),
 ('tr-t2min', 'C19', O, "std.link_t2_max(reader.trcal, reader.dr)  # NOTE", "std.link_t2_min(reader.trcal, reader.dr)  # NOTE"),
 ('tr-trext', 'C19', O, "            reply_durations = [f.get_duration(tag.blf) for tag, f in replies]", "            reply_durations = [f.get_duration(replies[0][0].blf) for tag, f in replies[:16]]"),
 ('tr-bits', 'C18', O, "        receive_probability = pow(1.0 - ber, frame.reply.bitlen)", "        receive_probability = pow(1.0 - ber, min(frame.reply.bitlen, 512))"),
 ('tr-bits2', 'C18', O, "        receive_probability = pow(1.0 - ber, frame.reply.bitlen)", "        receive_probability = max(1 - ber * frame.reply.bitlen, 0)"),
 ('tr-collide3', 'C18', O, "        if len(self.replies) != 1:\n", "        if len(self.replies) != 1 and len(set(f.reply.bitlen for _, f in self.replies)) < 2:\n"),
 ('tr-map', 'C18,C19', O, "        self._reader_rx_powers = _TagPowerMinMap(reader_rx_powers)", "        self._replies = tuple((t, f) for t, f in self._replies if dict(reader_rx_powers).get(t) is not None)\n        self._reader_rx_powers = _TagPowerMinMap(reader_rx_powers)"),
 ('m-sens', 'C22', O, "            if power is None or power < self.sensitivity:\n", "            if power is None or power < self.sensitivity and self._state is not Tag.State.SECURED:\n"),
 ('m-power-on-eq', 'C22', O, "            if power is not None and power > self.sensitivity:", "            if power is not None and power > self.sensitivity + 1e-6:"),
 ('m-fspl', 'C22', O, "        if reader.power is None:\n            return None\n        pl = self.get_forward", "        if not reader.power:\n            return None\n        pl = self.get_forward"),
 ('s-ebv3', 'C23', STD, "        return encode_ebv(value >> 7, first_block=False) + \\\n", "        return encode_ebv((value >> 7) % 128, first_block=False) + \\\n"),
 ('s-updn', 'C23', STD, "        return '110'\n", "        return '011'\n"),
 ('s-int', 'C23', STD, "    value %= 2 ** n_bits\n    return", "    value = min(value, 2 ** n_bits - 1)\n    return"),
 ('s-ack-str', 'C23', STD, "                command.startswith(CommandCode.QUERY.code)):", "                command.startswith(CommandCode.QUERY.code[:3])):"),
 ('s-miller-trext', 'C23', STD, "        return 22 if self.extended else 10\n", "        return (22 if self.extended else 10) + (self.m == 8 and self.extended) * 4\n"),
 ('s-frt-lt', 'C24', STD, "        if trcal < highest_trcal * 1e-6:\n", "        if trcal <= highest_trcal * 1e-6:\n"),
 ('s-t6', 'C24', STD, "        if param_index in [1, 5, 6]:\n", "        if param_index in [1, 5]:\n            param_index = 1\n        if param_index in [1, 6]:\n            temp = temp if param_index == 1 else TempRange.NOMINAL\n"),
 ('s-t7', 'C24', STD, "            return max(link_t2_max(trcal, dr), 250e-6)", "            return 250e-6"),
 ('s-t1-max', 'C24', STD, "            return max(rtcal, pri * 10.0) * (1.0 + frt) + 2e-6", "            return max(rtcal * (1.0 + frt), pri * 10.0 * (1.0 + frt)) + 2e-6 * (pri * 10.0 > rtcal)"),
 ('s-persist-eq', 'C15', STD, "persistence", "persistence"),
 ('c-zero-power', 'C25', CF, "    reader.max_power = kwargs.get('power', settings.reader_power)", "    reader.max_power = kwargs.get('power') or settings.reader_power"),
 ('c-zero-offset', 'C25', CF, "    tag_antenna_x = kwargs.get('tag_offset', settings.tag_antenna_x)", "    tag_antenna_x = kwargs.get('tag_offset') or settings.tag_antenna_x"),
 ('c-qfp0', 'C25', CF, "        settings.q_fp if settings.q_fp is not None else settings.q\n", "        settings.q_fp or settings.q\n"),
 ('c-delta', 'C25', CF, "    reader.adjust_delta = kwargs.get('delta', settings.adjust_delta)", "    reader.adjust_delta = kwargs.get('delta', settings.adjust_delta) if reader.use_query_adjust else settings.adjust_delta"),
 ('c-tidbits', 'C25', CF, "    generator.tid_bitlen = settings.get_tid_bitlen(reader.read_tid_words_num)", "    generator.tid_bitlen = max(settings.tid_bitlen, settings.get_tid_bitlen(reader.read_tid_words_num))"),
 ('c-gainshared', 'C25', CF, "    generator.sensitivity = settings.tag_sensitivity\n", "    generator.sensitivity = settings.tag_sensitivity or generator.sensitivity\n"),
 ('cli-jobs', 'C26', CLI, "    variadic_values = sorted(set(kwargs[variadic]))\n", "    variadic_values = sorted(set(kwargs[variadic]), key=abs)\n"),
 ('cli-dup', 'C26', CLI, "    variadic_values = sorted(set(kwargs[variadic]))\n", "    variadic_values = sorted(set(round(x, 2) for x in kwargs[variadic]))\n"),
 ('cli-imap', 'C26', CLI, "    return pool.map(prepare_simulation, args_list)", "    return list(pool.imap_unordered(prepare_simulation, args_list)) if len(args_list) > 8 else pool.map(prepare_simulation, args_list)"),
]
MUTS = [m for m in MUTS if m[0] != 's-persist-eq']
