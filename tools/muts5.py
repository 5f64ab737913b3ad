from muts3 import S, L, PP, TT, R, H, O, STD, CF
CH = R + 'channel.py'; CLI = R + 'cli.py'
PM = PP + 'model.py'; TM = TT + 'model.py'; MC = TT + 'mc.py'; CP = TT + 'calculate_params.py'; AN = TT + 'analitical_model.py'
MUTS = [
 # power-down at special moments
 ('x-off-resp', 'C22,C18,C19', H, "        kernel.cancel(ctx.transaction.response_start_event_id)\n", "        if ctx.transaction.reply_duration is None or kernel.time <= ctx.transaction.reply_start_time - 1e-5:\n            kernel.cancel(ctx.transaction.response_start_event_id)\n"),
 ('x-off-timeout-inreply', 'C22,C18,C19', H, "        kernel.cancel(ctx.transaction.timeout_event_id)\n        ctx.transaction = None\n", "        if reader.state is Reader.State.OFF and len(ctx.transaction.replies) < 3:\n            kernel.cancel(ctx.transaction.timeout_event_id)\n        ctx.transaction = None\n"),
 ('x-off-norefresh-round', 'C16,C22', O, "        if self._round:\n            self._round.slot.on_finish(self)\n            self._round.on_finish(self)\n        self._round = None", "        if self._round:\n            self._round.slot.on_finish(self)\n            self._round.on_finish(self)\n            if self._round.slot.index == 0:\n                return\n        self._round = None"),
 ('x-rn-kept', 'C16', O, "    def turn_off(self):\n", "    def turn_off(self):\n        self.last_rn = self.last_rn if self._state is Reader.State.READ else None\n"),
 ('x-pre-kept', 'C14,C18', O, "        self._preamble = std.create_tag_preamble(self.encoding, self.trext)\n", "        self._preamble = self._preamble or std.create_tag_preamble(self.encoding, self.trext)\n"),
 ('x-listener-left', 'C18,C21', H, "            tag_record = statistics.get_tag_record(tag)\n            if tag_record is not None:\n                tag_record.close_tag_read_record()\n            reader.slot_finish_listeners.remove(\n                statistics.slot_end_listener_id)\n", "            tag_record = statistics.get_tag_record(tag)\n            if tag_record is None:\n                return\n            tag_record.close_tag_read_record()\n            reader.slot_finish_listeners.remove(\n                statistics.slot_end_listener_id)\n"),
 ('x-gone-open', 'C18,C21', H, "    ctx.statistics.get_tag_record(tag).close_tag_read_record()\n", "    if ctx.transaction is None or tag not in list(ctx.transaction.tags):\n        ctx.statistics.get_tag_record(tag).close_tag_read_record()\n"),
 ('x-gone-transaction', 'C18,C19', H, "    ctx.tags.remove(tag)\n", "    ctx.tags.remove(tag)\n    if ctx.transaction is not None and len(ctx.transaction.replies) > 1:\n        ctx.transaction._replies = tuple(r for r in ctx.transaction._replies if r[0] is not tag)\n"),
 ('x-rounds-off', 'C21', H, "                stat.get_tag_record(tag).num_rounds_attained += 1\n", "                if tag.state is Tag.State.REPLY or len(participating_tags) < 4:\n                    stat.get_tag_record(tag).num_rounds_attained += 1\n"),
 ('x-stop-late-close', 'C21', H, "        kernel.stop()\n    # Closing", "        kernel.stop()\n        return\n    # Closing"),
 ('x-newtag-adjusted', 'C20,C18', H, "    ctx.tags.append(tag)\n", "    ctx.tags.insert(0, tag)\n"),
 ('x-upd-skip', 'C22', H, "    kernel.schedule(kernel.context.update_interval, update_positions)\n", "    kernel.schedule(kernel.context.update_interval, update_positions)\n    if ctx.transaction is not None and ctx.transaction.reply_start_time is not None and kernel.time > ctx.transaction.reply_start_time:\n        return\n"),
 ('x-upd-off', 'C22,C15', H, "    kernel.schedule(kernel.context.update_interval, update_positions)\n", "    kernel.schedule(kernel.context.update_interval, update_positions)\n    if ctx.reader.power is None:\n        return\n"),
 ('x-offpos', 'C21', H, "    for tag in tags:\n        power = medium.estimate_tag_rx_power(reader, tag, time)\n", "    for tag in tags:\n        if reader.power is None:\n            tag.set_power(time, None)\n            tag.last_pos_update = tag.last_pos_update\n            continue\n        power = medium.estimate_tag_rx_power(reader, tag, time)\n"),
 ('x-offpos-lost', 'C21', H, "        power = medium.estimate_tag_rx_power(reader, tag, time)\n        tag.set_power(time, power)\n", "        power = medium.estimate_tag_rx_power(reader, tag, time)\n        tag.set_power(time, power)\n        if tag.state is Tag.State.OFF and reader.power is not None:\n            continue\n"),
 # Q adjustment
 ('x-adj-power', 'C20', H, "        if reader.q > 0 and reader.q <= 15:\n            reader.q_fp = max(0, reader.q_fp-reader.adjust_delta)", "        if reader.q > 0 and reader.q <= 15:\n            reader.q_fp = max(0, min(reader.q_fp, 14.5)-reader.adjust_delta)"),
 ('x-adj-lost', 'C20', H, "    elif frame is None and cmd_frame is None:\n", "    elif frame is None and cmd_frame is None and len(transaction.replies) == 1 and reader.use_query_adjust:\n        cmd_frame = ctx.reader.timeout()\n    elif frame is None and cmd_frame is None:\n"),
 ('x-adj-state', 'C20', H, "        if reader.q >= 0 and reader.q < 15:", "        if reader.q >= 0 and reader.q < 15 and len(transaction.replies) < 2 ** reader.q + 2:"),
 ('x-tag-adj-reply', 'C20,C14', O, "            if 0 <= self.q + updn <= 15:\n", "            if self.q + updn == 15:\n                self.q = 15\n                self._slot_counter = np.random.randint(0, pow(2, 14))\n                self.kernel.context.statistics.get_tag_record(self).num_qadjust_attained += 1\n            elif 0 <= self.q + updn <= 15:\n"),
 ('x-tag-adj-rn', 'C20,C14', O, "            if self._slot_counter == 0:\n                self._set_state(Tag.State.REPLY)\n                self._rn = np.random.randint(0, 0x10000)\n                return", "            if self._slot_counter == 0:\n                self._set_state(Tag.State.REPLY)\n                self._rn = self._rn or np.random.randint(0, 0x10000)\n                return"),
 # tag
 ('x-qrep-wrap', 'C14', O, "        self._slot_counter -= 1\n", "        self._slot_counter = max(self._slot_counter - 1, -1) if self.state is not Tag.State.ARBITRATE else (self._slot_counter - 1) % 0x4000\n"),
 ('x-qrep-secured-noflag', 'C15,C14', O, "            elif self.state is not Tag.State.READY:\n                flag = self.sessions[self._active_session]\n                self.sessions[self._active_session] = flag.invert()\n                self._set_state(Tag.State.READY)\n", "            elif self.state is not Tag.State.READY:\n                flag = self.sessions[self._active_session]\n                self.sessions[self._active_session] = flag.invert() if self._slot_counter else flag\n                self._set_state(Tag.State.READY)\n"),
 ('x-query-secured-same', 'C15', O, "            self.sessions[self._active_session] = flag.invert()\n\n        # Checking", "            self.sessions[self._active_session] = flag.invert() if command.session is self._active_session or command.target is not flag else flag\n\n        # Checking"),
 ('x-power-equal', 'C22', O, "            if power is None or power < self.sensitivity:\n", "            if power is None or power < self.sensitivity or power != power:\n"),
 ('x-poff-twice', 'C15', O, "        if self.state is not Tag.State.OFF:\n            self._powered_on_time = None\n            self._powered_off_time = time\n", "        if self.state is not Tag.State.OFF:\n            self._powered_off_time = self._powered_on_time if time - self._powered_on_time < 1e-3 else time\n            self._powered_on_time = None\n"),
 ('x-s0-persist', 'C15', STD, "    def power_on_value(self, interval, persistence, stored_value):\n        return InventoryFlag.A", "    def power_on_value(self, interval, persistence, stored_value):\n        return InventoryFlag.A if interval > 0 else stored_value"),
 ('x-sl', 'C14', O, "                command.sel.match(self.sl)):", "                (command.sel.match(self.sl) or self.state is Tag.State.REPLY)):"),
 ('x-ack-rn0', 'C14', O, "        if ack.rn == self.rn:\n            self._set_state(Tag.State.ACK", "        if ack.rn & 0x7fff == self.rn & 0x7fff:\n            self._set_state(Tag.State.ACK"),
 ('x-reqrn-secured', 'C14', O, "            self._set_state(Tag.State.SECURED)\n            self._rn = np.random.randint(0, 0x10000)", "            self._rn = np.random.randint(0, 0x10000) if self.state is Tag.State.ACKNOWLEDGED else self._rn\n            self._set_state(Tag.State.SECURED)"),
 # reader
 ('x-round-q', 'C16', O, "        def slots_gen():\n            yield _ReaderSlot(self, 0, Reader.State.QUERY)\n            for i in range(1, round(pow(2, reader.q))):", "        q0 = reader.q\n\n        def slots_gen():\n            yield _ReaderSlot(self, 0, Reader.State.QUERY)\n            for i in range(1, round(pow(2, q0)) if q0 < 12 else 4095):"),
 ('x-index', 'C16', O, "                self._round = _ReaderRound(self, next(self._round_index))\n                self._round.on_start(self)\n                slot = self", "                self._round = _ReaderRound(self, self._round.index + 1)\n                self._round.on_start(self)\n                slot = self"),
 ('x-listen-order', 'C16', O, "        self._state_change_listeners.call(self.state, new_state)\n        self._state = new_state\n", "        if self._state is not new_state:\n            self._state_change_listeners.call(self.state, new_state)\n        self._state = new_state\n"),
 ('x-dup-off', 'C16,C22', O, "        self._power_off_listeners.call()\n", "        if self._round is not None:\n            self._power_off_listeners.call()\n"),
 # transaction
 ('x-t4', 'C19', O, "                exchange_duration, self._command_duration + t4\n", "                exchange_duration, t4\n"),
 ('x-reply-mean', 'C19', O, "            self._reply_duration = np.max(reply_durations)", "            self._reply_duration = np.max(reply_durations[-8:])"),
 ('x-temp', 'C19', O, "            t1 = std.link_t1_min(\n                reader.rtcal, reader.trcal, reader.dr, reader.temp)", "            t1 = std.link_t1_min(\n                reader.rtcal, reader.trcal, reader.dr)"),
 ('x-loss-draw', 'C18', O, "        p = np.random.uniform(0.0, 1.0)\n", "        if receive_probability < 1e-3:\n            return None, None, None, None\n        p = np.random.uniform(0.0, 1.0)\n"),
 ('x-exp', 'C18', O, "pow(1.0 - ber, frame.reply.bitlen)", "np.exp(-ber * frame.reply.bitlen)"),
 ('x-minmap', 'C18,C22', O, "        if tag in self._tag_power_map:\n            prev", "        if tag in self._tag_power_map and len(self._tag_power_map) == 1:\n            prev"),
 # ping-pong
 ('p-final', 'C09', PM, "        if self.num_pings_sent > 0 and not self.was_acknowledged:\n", "        if self.num_pings_sent > 0 and not self.was_acknowledged and self.num_pings_sent != self.max_pings:\n"),
 ('p-lossdraw', 'C08', PM, "        if random.random() > self.loss_prob:", "        if random.random() > self.loss_prob or ping.number % 4096 == 4095:"),
 ('p-zero-delay', 'C08', PM, "            sim.schedule(self.delay, self.handle_service_end, (ping,))", "            (sim.schedule(self.delay, self.handle_service_end, (ping,)) if self.delay else self.handle_service_end(sim, ping))"),
 ('p-delays', 'C09', PM, "        self.delays_list.append(self.delay)", "        self.delays_list.append(sim.time - packet.number * 0 + self.delay - sim.time)"),
 ('p-mean', 'C09', PP+'handlers.py', "        avg_delay=statistics.mean(model.channel.delays_list),", "        avg_delay=statistics.median(model.channel.delays_list[:1000]) if len(model.channel.delays_list) > 1000 else statistics.mean(model.channel.delays_list),"),
 ('p-missrate', 'C09', PP+'handlers.py', "            model.client.num_missed / model.client.num_pings_sent\n", "            1 - model.client.num_acknowledged / model.client.num_pings_sent\n"),
 ('p-one', 'C08', PM, "        if self.max_pings is None or self.num_pings_sent < self.max_pings:", "        if not self.max_pings or self.num_pings_sent < self.max_pings:"),
 # tag time
 ('tt-chunk0', 'C10', TM, "            if self.scenario == 3:\n                sim.context.chunks_passed = 0\n", "            if self.scenario == 3 and sim.context.num_transmissions % 2 == 0:\n                sim.context.chunks_passed = 0\n"),
 ('tt-chunkfail', 'C10', TM, "            sim.schedule(self.interval, self.handle_timeout, (packet,))", "            (sim.schedule(self.interval, self.handle_timeout, (packet,)) if self.secured_number is None or self.secured_number < 3 else sim.schedule(self.interval, sim.context.secured[2].handle_timeout, (packet,)))"),
 ('tt-prob-eq', 'C10', TM, "            if random.random() > self.probability:", "            if random.random() > self.probability and self.probability > 1e-3:"),
 ('tt-mc-skip', 'C11', MC, "    for _ in range(num_trials):\n", "    for _ in range(min(num_trials, 5000)):\n"),
 ('tt-mc-f32', 'C11', MC, "    return np.cumsum(matrix, axis=1)\n\n\ndef create_matrix_2", "    return np.cumsum(matrix.astype(np.float32), axis=1)\n\n\ndef create_matrix_2"),
 ('tt-mc-index', 'C11', MC, "        res_time.append(monte_carlo(matrix_list[i], times[i], transmissions))", "        res_time.append(monte_carlo(matrix_list[i], times[min(i, 2)], transmissions))"),
 ('tt-mc-search', 'C11', MC, "            for index, elem in enumerate(transition_matrix[current_state]):\n                if rand_var < elem:", "            for index, elem in enumerate(transition_matrix[current_state]):\n                if rand_var < elem and (index or elem > 0.01):"),
 ('tt-an-len', 'C12', AN, "        for state_number in range(len(probs[0])):", "        for state_number in range(min(len(p) for p in probs)):"),
 ('tt-an-cut', 'C12', AN, "        success *= p\n        res += t / success if success > 0 else np.inf", "        success *= p\n        res += t / success if success > 1e-12 else np.inf"),
 ('tt-an-3', 'C12', AN, "        chunk_count * calculate_second_case([chunk_phase])", "        max(chunk_count, 2) * calculate_second_case([chunk_phase])"),
 ('tt-an-scale', 'C12', AN, "            analit_res.append(calculate_second_case(all_phases[i])*1_000)", "            analit_res.append(round(calculate_second_case(all_phases[i])*1_000, 3))"),
 # registry, CLI, config
 ('c-pp-key', 'C26', PP+'cli.py', "variadic_values = sorted(set(kwargs[variadic]))", "variadic_values = sorted({round(v, 3) for v in kwargs[variadic]})"),
 ('c-pp-shared', 'C26', PP+'cli.py', "    return pool.map(create_config, args_list)", "    return list(pool.imap_unordered(create_config, args_list, chunksize=max(1, len(args_list) // 4)))"),
 ('c-rf-chunk', 'C26', CLI, "    return pool.map(prepare_simulation, args_list)", "    return [r.get() for r in reversed([pool.apply_async(prepare_simulation, (a,)) for a in reversed(args_list)])] if len(args_list) < 5 else [r.get() for r in [pool.apply_async(prepare_simulation, (a,)) for a in args_list[:-1]]] + [prepare_simulation(dict(args_list[-1], delta=0.1))]"),
 ('c-tt-zip', 'C26', TT+'cli.py', "        'processing_time': kwargs['processing_time'][i],", "        'processing_time': kwargs['processing_time'][min(i, 3)],"),
 ('c-rf-power', 'C26,C25', CLI, "        'power': kwargs['power'],\n        'num_tags'", "        'power': kwargs['power'] or 31.5,\n        'num_tags'"),
 ('c-rf-alt', 'C25,C26', CLI, "        altitude=kwargs['altitude'],\n", "        altitude=kwargs['altitude'] or 5.0,\n"),
 ('c-cf-rn0', 'C25', CF, "        kwargs.get('tid_word_size', settings.tid_word_size)\n", "        kwargs.get('tid_word_size') or settings.tid_word_size\n"),
 ('c-cf-readtid', 'C25', CF, "        settings.read_tid_bank if reader.read_tid_words_num > 0 else False", "        settings.read_tid_bank if settings.tid_word_size > 0 else False"),
 ('c-cf-tid', 'C25,C21', CF, "settings.get_tid_bitlen(reader.read_tid_words_num)", "settings.get_tid_bitlen(max(reader.read_tid_words_num, settings.tid_word_size))"),
 ('c-cf-delta0', 'C25', CF, "    reader.adjust_delta = kwargs.get('delta', settings.adjust_delta)", "    reader.adjust_delta = kwargs.get('delta') or settings.adjust_delta"),
 ('c-cf-adj', 'C25', CF, "    reader.use_query_adjust = kwargs.get(\n        'useadjust', settings.use_query_adjust\n    )", "    reader.use_query_adjust = (\n        kwargs.get('useadjust') or settings.use_query_adjust\n    )"),
 ('c-cf-maxtags', 'C25', CF, "    generator.max_tags_generated = model.max_tags_num", "    generator.max_tags_generated = settings.num_tags"),
 ('c-cf-shared-ant', 'C25', CF, "    ant.direction_theta = settings.reader_antenna_direction", "    ant.direction_theta = generator_dir = settings.tag_antenna_direction * -1"),
 ('c-cf-qfp', 'C25', CF, "settings.q_fp if settings.q_fp is not None else settings.q", "settings.q_fp or settings.q"),
 ('c-cf-interval', 'C25', CF, "        *settings.generation_interval[1:])", "        *settings.generation_interval[1:2])"),
 ('c-reg-sort', 'C27', 'pysim/main.py', "        except (Exception, SystemExit) as error:", "        except (ImportError, AttributeError, SyntaxError, NameError, SystemExit) as error:"),
 ('c-reg-name', 'C27', 'pysim/main.py', "run.add_command(cmd, name)", "run.add_command(cmd, name if cmd.name in (None, 'cli-run', 'cli_run') else cmd.name)"),
 ('c-reg-dup', 'C27', 'pysim/main.py', "                models_list.append(name)", "                models_list.append(name.replace('_', '-') if name.count('_') > 1 else name)"),
 # logger
 ('l-extra', 'C07', L, "            \"simTime\": self.time_getter(),", "            \"simTime\": round(self.time_getter(), 6),"),
 ('l-name', 'C07', L, "        ext_pos = file_name.rfind('.')", "        ext_pos = file_name.find('.')"),
 ('l-strip', 'C07', L, "        file_name = file_name.strip()", "        file_name = file_name.strip(' _.')"),
 ('l-runid0', 'C07', L, "        self._run_id = run_id\n    \n", "        self._run_id = run_id or self._run_id\n    \n"),
 ('l-flevel', 'C07', L, "            f_handler.setLevel(config.file_level or config.level)", "            f_handler.setLevel(max(config.file_level or config.level, config.level))"),
 ('l-colored', 'C07', L, "                    colors=config.console_colors\n", "                    colors=config.console_colors or {}\n"),
 # kernel
 ('k-tie', 'C01,C05', S, "        return time, event_id, task", "        return round(time, 12), event_id, task"),

 # frames
 ('f-crc', 'C23', STD, "        return 22 if self.extended else 10\n", "        return 22 if self.extended else (10 if self.m < 8 else 11)\n"),
 ('f-t1temp', 'C24', STD, "        if trcal < highest_trcal * 1e-6:\n", "        if trcal * 1e6 < highest_trcal:\n"),

]
