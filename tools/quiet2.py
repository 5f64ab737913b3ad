"""Second batch of behaviour-preserving edits (name, path, old, new[, 'all'])."""
SIM = 'pysim/sim/simulator.py'
LOG = 'pysim/sim/logger.py'
RC = 'pysim/models/rfid/cli.py'
PC = 'pysim/models/pingpong/cli.py'
TC = 'pysim/models/tag_time/cli.py'
CF = 'pysim/models/rfid/configurator.py'
AN = 'pysim/models/tag_time/analitical_model.py'
CP = 'pysim/models/tag_time/calculate_params.py'
RP = 'pysim/models/rfid/processing.py'
TP = 'pysim/models/tag_time/processing.py'
PP = 'pysim/models/pingpong/processing.py'
MAIN = 'pysim/main.py'
O = 'pysim/models/rfid/objects.py'
STD = 'pysim/models/rfid/epcstd.py'
MC = 'pysim/models/tag_time/mc.py'

def levels():
    out = []
    for level in ('debug', 'info', 'warning', 'error', 'critical', 'exception'):
        src = open('/repo/' + LOG).read()
        k = src.index(f'    def {level}(self, msg')
        e = src.find('\n    def ', k + 10)
        e2 = src.find('\n    @staticmethod', k + 10)
        e = min(x for x in (e, e2) if x > 0)
        out.append(('logcalls', LOG, src[k:e].rstrip(), f'''    def {level}(self, msg, *args, **kwargs):
        self._emit(self._logger.{level}, msg, *args, **kwargs)'''))
    return out

EDITS = levels() + [
 ('logcalls', LOG, '''    def _get_extra(self):
''', '''    def _emit(self, method, *args, **kwargs):
        # stacklevel = 3: пропустить _emit() и ModelLogger.xxx()
        method(*args, **kwargs, extra=self._get_extra(), stacklevel=3)

    def _get_extra(self):
'''),
 ('logfile', LOG, '''        file_name = file_name.strip()
        ext_pos = file_name.rfind('.')
        if ext_pos >= 0 and file_name[ext_pos+1:].lower() == "log":
            return file_name[:ext_pos] + sep + str(run_id) + file_name[ext_pos:]
        return file_name + sep + str(run_id)
''', '''        name = file_name.strip()
        suffix = f"{sep}{run_id}"
        base, dot, ext = name.rpartition('.')
        if not dot or ext.lower() != "log":
            return name + suffix
        return base + suffix + dot + ext
'''),
 ('logsetup', LOG, '''        config = config or ModelLoggerConfig()
        self._logger.handlers = []
''', '''        if config is None:
            config = ModelLoggerConfig()
        for old in list(self._logger.handlers):
            self._logger.removeHandler(old)
'''),
 ('logsetup', LOG, '''            s_handler.setLevel(config.console_level or config.level)     
            s_handler.setFormatter(c_formatter)
            self._logger.addHandler(s_handler)
''', '''            self._attach(s_handler, config.console_level or config.level,
                         c_formatter)
'''),
 ('logsetup', LOG, '''            f_handler.setLevel(config.file_level or config.level)
            f_handler.setFormatter(f_formatter)
            self._logger.addHandler(f_handler)
''', '''            self._attach(f_handler, config.file_level or config.level,
                         f_formatter)
'''),
 ('logsetup', LOG, '''    def set_run_id(self, run_id: int) -> None:
''', '''    def _attach(self, handler, level, formatter) -> None:
        handler.setFormatter(formatter)
        handler.setLevel(level)
        self._logger.addHandler(handler)

    def set_run_id(self, run_id: int) -> None:
'''),
 ('color', LOG, '''        log_fmt = self.FORMATS.get(record.levelno)
        if log_fmt is None:  # нестандартный уровень - без цвета
            return super().format(record)
        return log_fmt.format(record)
''', '''        if record.levelno not in self.FORMATS:  # нестандартный уровень
            return super().format(record)
        return self.FORMATS[record.levelno].format(record)
'''),
 # the queue
 ('queue', SIM, '''        event_id = next(self._next_id)  # Генерируем уникальный номер события
        event = [time, event_id, task]  # Формируем list события
        self._event_dict[event_id] = event
        heapq.heappush(self._event_list, event)
        return event_id
''', '''        event = [time, next(self._next_id), task]
        heapq.heappush(self._event_list, event)
        self._event_dict[event[1]] = event
        return event[1]
'''),
 ('queue', SIM, '''        (time, event_id, task) = heapq.heappop(self._event_list)
        while task is None:
            (time, event_id, task) = heapq.heappop(self._event_list)
        self._event_dict.pop(event_id)
        return time, event_id, task
''', '''        self._drop_cancelled()
        time, event_id, task = heapq.heappop(self._event_list)
        del self._event_dict[event_id]
        return time, event_id, task

    def _drop_cancelled(self):
        heap = self._event_list
        while heap and heap[0][-1] is None:
            heapq.heappop(heap)
'''),
 ('queue', SIM, '''        if event_id in self._event_dict and event_id is not None:
            event = self._event_dict.pop(event_id)  # Удаляем запись о событии из словаря (но не из кучи)
            event[-1] = None
            return (event)
''', '''        event = self._event_dict.pop(event_id, None)
        if event is None:
            return None
        event[-1] = None
        return event
'''),
 ('queue', SIM, '''        return len(self._event_dict) == 0

    def to_list(self):
        return [event for event in self._event_list
                if event[1] in self._event_dict]
''', '''        return not self._event_dict

    def to_list(self):
        return [event for event in self._event_list if event[-1] is not None]
'''),
 ('rename-queue', SIM, '_event_list', '_heap', 'all'),
 ('rename-queue', SIM, '_event_dict', '_pending', 'all'),
 ('rename-kernel', SIM, '_sim_time', '_now', 'word'),
 ('rename-kernel', SIM, '_num_events_served', '_served', 'word'),
 ('rename-kernel', SIM, '_user_stop', '_stop_requested', 'word'),
 ('rename-kernel', SIM, '_queue', '_events', 'word'),
 ('proxy', SIM, '''        return self._kernel.schedule(0, handler, args, msg)
''', '''        return self.schedule(0, handler, args, msg)
'''),
 ('runsim', SIM, '''    ret = None
    try:
        while True:
            ret = next(sim)
    except StopIteration:
        pass
    if ret is None:
''', '''    ret = None
    for ret in sim:
        pass
    if ret is None:
'''),
 ('build', SIM, '''    if fin is not None:
        kernel.set_finalizer(fin)
    if max_real_time is not None:
        kernel.set_max_real_time(max_real_time)
    if max_sim_time is not None:
        kernel.set_max_sim_time(max_sim_time)
    if max_num_events is not None:
        kernel.set_max_num_events(max_num_events)
''', '''    for setter, value in (
            (kernel.set_finalizer, fin),
            (kernel.set_max_num_events, max_num_events),
            (kernel.set_max_sim_time, max_sim_time),
            (kernel.set_max_real_time, max_real_time)):
        if value is not None:
            setter(value)
'''),
 ('fin', SIM, '''        if self._finalize:
            fin_ret = self._finalize(sim)
        else:
            fin_ret = None
''', '''        fin_ret = self._finalize(sim) if self._finalize else None
'''),
 # command lines
 ('rcli', RC, '''    variadic_values = sorted(set(kwargs[variadic]))

    # Построим массив из копий параметров
    args_list = [{
        'speed': kwargs['speed'],
        'tari': kwargs['tari'],
        'encoding': kwargs['encoding'],
        'tid_word_size': kwargs['tid_word_size'],
        'reader_offset': kwargs['reader_offset'],
        'tag_offset': kwargs['tag_offset'],
        'altitude': kwargs['altitude'],
        'power': kwargs['power'],
        'num_tags': kwargs['num_tags'],
        'verbose': False,
        'useadjust': kwargs['useadjust'],
        'delta': kwargs['delta'],
    } for _ in enumerate(variadic_values)]

    # Теперь заменим значения варьируемого аргумента, чтобы в каждом
    # элементе args хранилось только одно значение вместо всего набора.
    for i, value in enumerate(variadic_values):
        args_list[i][variadic] = value

    pool = multiprocessing.Pool(
        kwargs.get('jobs', multiprocessing.cpu_count())
    )
    return pool.map(prepare_simulation, args_list)
''', '''    args_list = []
    for value in sorted(set(kwargs[variadic])):
        item = dict(kwargs)
        item['verbose'] = False
        item[variadic] = value
        args_list.append(item)

    jobs = kwargs.get('jobs', multiprocessing.cpu_count())
    with multiprocessing.Pool(jobs) as pool:
        return pool.map(prepare_simulation, args_list)
'''),
 ('rvar', RC, '''    variadic = None
    for arg_name in var_arg_names:
        if len(kwargs[arg_name]) > 1:
            if variadic is not None:
                raise ValueError("Only one argument can have multiple values, "
                      f"not both \\"{variadic}\\" and \\"{arg_name}\\"")
            variadic = arg_name
        else:
            kwargs[arg_name] = kwargs[arg_name][0]
    return kwargs, variadic
''', '''    many = [name for name in var_arg_names if len(kwargs[name]) > 1]
    if len(many) > 1:
        raise ValueError("Only one argument can have multiple values, "
                         f"not both \\"{many[0]}\\" and \\"{many[1]}\\"")
    checked = dict(kwargs)
    for name in var_arg_names:
        if name not in many:
            checked[name] = kwargs[name][0]
    return checked, (many[0] if many else None)
'''),
 ('renc', RC, '''    s = s.upper()
    if s in {'1', "FM0"}:
        return std.TagEncoding.FM0
    elif s in {'2', 'M2'}:
        return std.TagEncoding.M2
    elif s in {'4', 'M4'}:
        return std.TagEncoding.M4
    elif s in {'8', 'M8'}:
        return std.TagEncoding.M8
    else:
        raise ValueError('illegal encoding = {}'.format(s))
''', '''    encodings = {
        '1': std.TagEncoding.FM0, 'FM0': std.TagEncoding.FM0,
        '2': std.TagEncoding.M2, 'M2': std.TagEncoding.M2,
        '4': std.TagEncoding.M4, 'M4': std.TagEncoding.M4,
        '8': std.TagEncoding.M8, 'M8': std.TagEncoding.M8,
    }
    try:
        return encodings[s.upper()]
    except KeyError:
        raise ValueError('illegal encoding = {}'.format(s.upper()))
'''),
 ('rprep', RC, '''    try:
        encoding = parse_tag_encoding(kwargs['encoding'])
    except ValueError:
        pass
    model = configurator.create_model(
''', '''    encoding = parse_tag_encoding(kwargs['encoding'])
    model = configurator.create_model(
'''),
 ('rprep', RC, '''    result = {
        'rounds_per_tag': model.statistics.average_rounds_per_tag(),
        'inventory_prob': model.statistics.inventory_probability(),
        'read_tid_prob': model.statistics.read_tid_probability()
    }
    print(
        'Статистика: ', model.statistics.average_changing_q()
    )
''', '''    stats = model.statistics
    result = dict(
        rounds_per_tag=stats.average_rounds_per_tag(),
        inventory_prob=stats.inventory_probability(),
        read_tid_prob=stats.read_tid_probability(),
    )
    print('Статистика: ', stats.average_changing_q())
'''),
 ('pcli', PC, '''    # Построим массив из копий параметров
    args_list = [{
        'interval': kwargs['interval'],
        'channel_delay': kwargs['channel_delay'],
        'service_delay': kwargs['service_delay'],
        'loss_prob': kwargs['loss_prob'],
        'max_pings': kwargs['max_pings'],
    } for _ in enumerate(variadic_values)]

    # Теперь заменим значения варьируемого аргумента, чтобы в каждом
    # элементе args хранилось только одно значение вместо всего набора.
    for i, value in enumerate(variadic_values):
        args_list[i][variadic] = value

    pool = Pool(kwargs.get('jobs', multiprocessing.cpu_count()))
    return pool.map(create_config, args_list)
''', '''    args_list = [{**kwargs, variadic: value} for value in variadic_values]
    with Pool(kwargs.get('jobs') or multiprocessing.cpu_count()) as pool:
        return list(pool.imap(create_config, args_list))
'''),
 ('pcfg', PC, '''def create_config(*args):
    kwargs = args[0]
    return run_model(Config(
        interval=kwargs['interval'],
        channel_delay=kwargs['channel_delay'],
        service_delay=kwargs['service_delay'],
        loss_prob=kwargs['loss_prob'],
        max_pings=kwargs['max_pings']
    ), ModelLoggerConfig())
''', '''CONFIG_FIELDS = ('interval', 'channel_delay', 'service_delay', 'loss_prob',
                 'max_pings')


def create_config(kwargs):
    config = Config(**{name: kwargs[name] for name in CONFIG_FIELDS})
    return run_model(config, ModelLoggerConfig())
'''),
 ('tcli', TC, '''    args_list = [{
        'probability': kwargs['probability'][i],
        'processing_time': kwargs['processing_time'][i],
        'max_transmisions': kwargs['max_transmisions'],
        'chunks_number': kwargs['chunks_number'],
        'scenario': kwargs['scenario'],
    } for i in range(len(kwargs['probability']))]

    pool = Pool(kwargs.get('jobs', multiprocessing.cpu_count()))
    return pool.map(create_config, args_list)
''', '''    args_list = []
    for p, t in zip(kwargs['probability'], kwargs['processing_time']):
        args_list.append({**kwargs, 'probability': p, 'processing_time': t})

    with Pool(kwargs.get('jobs', multiprocessing.cpu_count())) as workers:
        return workers.map(create_config, args_list, chunksize=1)
'''),
 ('tmode', TC, '''    if (len(kwargs['probability']) > 1 and
           (type(kwargs['probability'][0]) is tuple)):
        mode = 'plural'
    else:
        mode = 'single'
    return mode
''', '''    several = len(kwargs['probability']) > 1
    if several and type(kwargs['probability'][0]) is tuple:
        return 'plural'
    return 'single'
'''),
 ('tmode', TC, '''    if mode == 'single':
        kwargs['probability'] = kwargs['probability'][0]
        kwargs['processing_time'] = kwargs['processing_time'][0]
        result = create_config(kwargs)
    else:
        result = run_multiple_simulation(kwargs)
''', '''    if mode == 'plural':
        result = run_multiple_simulation(kwargs)
    else:
        result = create_config({
            **kwargs,
            'probability': kwargs['probability'][0],
            'processing_time': kwargs['processing_time'][0],
        })
'''),
 ('main', MAIN, '''            module = importlib.import_module('.cli', f'pysim.models.{name}')
            try:
                cmd: click.Command = getattr(module, "cli_run")
            except AttributeError:
                print(f"WARNING: no function 'cli_run(...)' found in {name}")
                continue
            if isinstance(cmd, click.Command):
                run.add_command(cmd, name)
                models_list.append(name)
            else:
                print("WARNING: cli_run() must be a Click command or group")
''', '''            module = importlib.import_module(f'pysim.models.{name}.cli')
            if not hasattr(module, 'cli_run'):
                print(f"WARNING: no function 'cli_run(...)' found in {name}")
                continue
            cmd = module.cli_run
            if not isinstance(cmd, click.Command):
                print("WARNING: cli_run() must be a Click command or group")
                continue
            models_list.append(name)
            run.add_command(cmd, name)
'''),
 # configuration
 ('config', CF, '''    # 3) Setting up medium
    medium = Medium()
    model.medium = medium

    medium.ber_distribution = settings.ber_distribution
    medium.ground_reflection_type = settings.ground_reflection_type
    medium.frequency = settings.frequency
    medium.permittivity = settings.permittivity
    medium.conductivity = settings.conductivity
    medium.polarization_loss = settings.polarization_loss
    medium.use_doppler = settings.use_doppler
''', '''    # 3) Setting up medium
    model.medium = _create_medium(settings)
'''),
 ('config', CF, '''def run_model(
    model,
''', '''def _create_medium(settings):
    medium = Medium()
    for name in ('ber_distribution', 'ground_reflection_type', 'frequency',
                 'permittivity', 'conductivity', 'polarization_loss',
                 'use_doppler'):
        setattr(medium, name, getattr(settings, name))
    return medium


def run_model(
    model,
'''),
 ('config', CF, '''        return (Reader.PowerControlMode.PERIODIC if x else
                Reader.PowerControlMode.ALWAYS_ON)
''', '''        if not x:
            return Reader.PowerControlMode.ALWAYS_ON
        return Reader.PowerControlMode.PERIODIC
'''),
 # formulas and preparation
 ('ana', AN, '''    all_phases = []
    sub_phase = []
    for cases in range(len(probs)):
        for state_number in range(len(probs[0])):
            sub_phase.append(
                (probs[cases][state_number], t[cases][state_number])
            )
        all_phases.append(sub_phase)
        sub_phase = []
    return all_phases
''', '''    return [list(zip(case_probs, case_times))
            for case_probs, case_times in zip(probs, t)]
'''),
 ('ana', AN, '''    res = 0
    for phase in phases:
        # Среднее число попыток до успеха равно 1 / p
        res += phase[1] / phase[0] if phase[0] > 0 else np.inf
    return res
''', '''    # Среднее число попыток до успеха равно 1 / p
    return sum(t / p if p > 0 else np.inf for p, t in phases)
'''),
 ('ana', AN, '''    res, success = 0, 1
    for p, t in reversed(phases):
        success *= p
        res += t / success if success > 0 else np.inf
    return res
''', '''    times = []
    success = 1
    for p, t in phases[::-1]:
        success = success * p
        times.append(np.inf if success <= 0 else t / success)
    return sum(times)
'''),
 ('ana', AN, '''    analit_res = []
    if script_number == 1:
        for i in range(len(all_phases)):
            analit_res.append(calculate_first_case(all_phases[i])*1_000)
    elif script_number == 2:
        for i in range(len(all_phases)):
            analit_res.append(calculate_second_case(all_phases[i])*1_000)
    elif script_number == 3:
        for i in range(len(all_phases)):
            analit_res.append(
                calculate_third_case(
                    all_phases[i][0:3], all_phases[i][3], chunks_number
                )*1_000
            )
    return analit_res
''', '''    solvers = {
        1: calculate_first_case,
        2: calculate_second_case,
        3: lambda phases: calculate_third_case(
            phases[:3], phases[3], chunks_number),
    }
    if script_number not in solvers:
        return []
    return [1_000 * solvers[script_number](phases) for phases in all_phases]
'''),
 ('calc', CP, '''    words_number_in_one_chunk = words_number
    last_chunk_len = 0
    if chunks_number > 1:
        words_number_in_one_chunk = words_number // chunks_number
        last_chunk_len = (
            words_number // chunks_number + words_number % chunks_number
        )
    # print(f'Слов в одном чанке: {words_number_in_one_chunk}')
    # print(f'Слов в последнем чанке: {last_chunk_len}')
    return words_number_in_one_chunk, last_chunk_len
''', '''    if chunks_number <= 1:
        return words_number, 0
    chunk, rest = divmod(words_number, chunks_number)
    return chunk, chunk + rest
'''),
 ('calc', CP, '''    for i in range(chunks_number):
        reply_lens.append(params['Data_len'][i])

    probabilities = []
    for i in range(len(reply_lens)):
        probabilities.append((1 - ber) ** reply_lens[i])

    probs = []
    sub_probabilities = []
    for i in range(points_number):
        for state_number in range(len(reply_lens)):
            sub_probabilities.append(probabilities[state_number][i])
        probs.append(sub_probabilities)
        sub_probabilities = []
    return probs
''', '''    reply_lens += [params['Data_len'][i] for i in range(chunks_number)]
    by_state = [(1 - ber) ** n for n in reply_lens]
    return [[column[i] for column in by_state] for i in range(points_number)]
'''),
 ('calc', CP, '''    times = []
    T_arbitrate = T1_2 + params['Query'] + params['RN16'] + 2 * delta
    times.append(T_arbitrate)
    T_reply = T1_2 + params['Ack'] + params['EPC+PC+CRC'] + 2 * delta
    times.append(T_reply)
    T_acknowledged = T1_2 + params['Req_RN'] + params['Handle'] + 2 * delta
    times.append(T_acknowledged)

    for i in range(chunks_number):
        t_chunk = T1_2 + params['Read'] + params['Data'][i] + 2 * delta
        times.append(t_chunk)
''', '''    def exchange(command, reply):
        return T1_2 + command + reply + 2 * delta

    times = [
        exchange(params['Query'], params['RN16']),
        exchange(params['Ack'], params['EPC+PC+CRC']),
        exchange(params['Req_RN'], params['Handle']),
    ] + [exchange(params['Read'], params['Data'][i])
         for i in range(chunks_number)]
'''),
 ('calc', CP, '''    t = []
    for _ in range(len(probs)):
        t.append(times)
    return t
''', '''    return [list(times) for _ in probs]
'''),
 ('proc', RP, '''    ret = []
    time_list = []
    for i in range(len(results)):
        ret.append(results[i][0])
        time_list.append(results[i][1])
    return ret, time_list
''', '''    return [r for r, _ in results], [elapsed for _, elapsed in results]
'''),
 ('proc', RP, '''    results_dict = {'read_tid_prob': [], 'inventory_prob': [], 'rounds_per_tag':[]}
    for i in range(len(ret)):
        results_dict['read_tid_prob'].append(ret[i]['read_tid_prob'])
        results_dict['inventory_prob'].append(ret[i]['inventory_prob'])
        results_dict['rounds_per_tag'].append(ret[i]['rounds_per_tag'])
    return results_dict
''', '''    keys = ('read_tid_prob', 'inventory_prob', 'rounds_per_tag')
    return {key: [item[key] for item in ret] for key in keys}
'''),
 ('proc', RP, '''    ret_cols.insert(0, variadic)
    for i in range(len(initial_data[variadic])):
        results_table[i].insert(0, initial_data[variadic][i])
''', '''    ret_cols = [variadic] + ret_cols
    results_table = [[value] + row for value, row in
                     zip(initial_data[variadic], results_table)]
'''),
 ('proc', TP, '''        res = []
        for i in result:
            res.append(i.sim_time/kwargs['max_transmisions'])
''', '''        total = kwargs['max_transmisions']
        res = [item.sim_time / total for item in result]
'''),
 ('proc', PP, '''        for i in range(len(results)):
            res['avg_interval'].append(results[i].avg_interval),
            res['avg_delay'].append(results[i].avg_delay),
            res['miss_rate'].append(results[i].miss_rate)
''', '''        for name in res:
            res[name] = [getattr(item, name) for item in results]
'''),
 # the standard
 ('enc', STD, '''    value %= 2 ** n_bits
    return "{:0{width}b}".format(value, width=n_bits)
''', '''    return format(value & ((1 << n_bits) - 1), f'0{n_bits}b')
'''),
 ('enc', STD, '''    prefix = '0' if first_block else '1'
    if value < 128:
        return prefix + format(value, '07b')
    else:
        return encode_ebv(value >> 7, first_block=False) + \\
               encode_ebv(value % 128, first_block=first_block)
''', '''    blocks = []
    rest = value
    while not blocks or rest:
        flag = '1' if blocks or not first_block else '0'
        blocks.insert(0, flag + format(rest & 0x7f, '07b'))
        rest >>= 7
    return ''.join(blocks)
'''),
 ('enc', STD, '''    if value == 1:
        return '110'
    elif value == 0:
        return '000'
    elif value == -1:
        return '011'
    else:
        raise ValueError(f'Несуществующее значение updn: {value}!')
''', '''    codes = {1: '110', 0: '000', -1: '011'}
    if value not in codes:
        raise ValueError(f'Несуществующее значение updn: {value}!')
    return codes[value]
'''),
 ('frames', STD, '''        m = self.preamble.encoding.symbols_per_bit
        t_preamble = self.preamble.get_duration(blf)
        t_body = self.get_body_duration(blf)
        t_suffix = m / blf
        return t_preamble + t_body + t_suffix
''', '''        bit = self.preamble.encoding.symbols_per_bit / blf
        return self.preamble.get_duration(blf) + (self.reply.bitlen + 1) * bit
'''),
 ('frames', STD, '''    if encoding is TagEncoding.FM0:
        return 18 if trext else 6
    else:
        return 22 if trext else 10
''', '''    return (6 if encoding is TagEncoding.FM0 else 10) + (12 if trext else 0)
'''),
 ('bytes', STD, '''        return list(bytearray.fromhex(value))
''', '''        return [b for b in bytes.fromhex(value)]
'''),
 # the reader and the tag
 ('rename-tag', O, '_slot_counter', '_slots_left', 'word'),
 ('rename-tag', O, '_active_session', '_round_session', 'word'),
 ('tagread', O, '''            start = frame.command.word_ptr * 4
            content = content[start:start + frame.command.word_count * 4]
''', '''            first, last = read.word_ptr, read.word_ptr + read.word_count
            content = content[4 * first:4 * last]
'''),
 ('tagack', O, '''        if ack.rn == self.rn:
            self._set_state(Tag.State.ACKNOWLEDGED)
            return std.TagFrame(self._preamble, std.AckReply(self.epc))
        else:
            self._set_state(Tag.State.ARBITRATE)
            return None
''', '''        if ack.rn != self.rn:
            self._set_state(Tag.State.ARBITRATE)
            return None
        reply = std.AckReply(self.epc)
        self._set_state(Tag.State.ACKNOWLEDGED)
        return std.TagFrame(self._preamble, reply)
'''),
 ('target', O, '''            if reader.num_rounds_before_target_switch <= 0:
                reader.target = reader.target.invert()
                reader.num_rounds_before_target_switch = \\
                    reader.rounds_per_target - 1
            else:
                reader.num_rounds_before_target_switch -= 1
''', '''            if reader.num_rounds_before_target_switch <= 0:
                reader.target = reader.target.invert()
                reader.num_rounds_before_target_switch = \\
                    reader.rounds_per_target
            reader.num_rounds_before_target_switch -= 1
'''),
 ('statedef', O, '''    def handle_turn_on(self, reader):
        # On turning on a new round is started, reader is powered up and
        # the FSM moves to the first state as defined by the first slot
        reader.set_power(reader.max_power)
        slot = reader.next_slot()
        if reader.target_strategy == 'switch':
            reader.target = std.InventoryFlag.A
            reader.num_rounds_before_target_switch = reader.rounds_per_target

        return reader.set_state(slot.first_state)
''', '''    def handle_turn_on(self, reader):
        # On turning on a new round is started, reader is powered up and
        # the FSM moves to the first state as defined by the first slot
        reader.set_power(reader.max_power)
        first_state = reader.next_slot().first_state
        self._reset_target(reader)
        return reader.set_state(first_state)

    def _reset_target(self, reader):
        if reader.target_strategy == 'switch':
            reader.target = std.InventoryFlag.A
            reader.num_rounds_before_target_switch = reader.rounds_per_target
'''),
]
