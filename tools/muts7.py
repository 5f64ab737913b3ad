"""Seventh batch: channel, parameters, configuration, command lines."""
from muts3 import S, L, PP, TT, R, H, O, STD, CF
CH = R + 'channel.py'; CLI = R + 'cli.py'; PR = R + 'processing.py'
PM = PP + 'model.py'; TM = TT + 'model.py'; MC = TT + 'mc.py'; CP = TT + 'calculate_params.py'; AN = TT + 'analitical_model.py'
MUTS = [
 ('z-grazing-d0', 'C28', CH, "    grazing_angle = -1 * np.dot(d1_vector_rx_n, ground_normal)  #", "    grazing_angle = abs(np.dot(d0_vector_rx_n, ground_normal))  #"),
 ('z-grazing-lin', 'C28', CH, "ground_reflection(cosine=grazing_angle, wavelen=wavelen, **kwargs)", "ground_reflection(cosine=min(grazing_angle, .9), wavelen=wavelen, **kwargs)"),
 ('z-pol-swap', 'C28', O, "                                 reader_velocity, tag_velocity, 0.5)", "                                 reader_velocity, tag_velocity, 1.0)"),
 ('z-cond', 'C28,C25', O, "            polarization=polarization, conductivity=self.conductivity,\n            permittivity=self.permittivity)", "            polarization=polarization, conductivity=max(self.conductivity, 0.03),\n            permittivity=self.permittivity)"),
 ('z-wavelen', 'C28', O, "        return self.SPEED_OF_LIGHT / self.frequency", "        return self.SPEED_OF_LIGHT / max(self.frequency, 860e6)"),
 ('z-vel', 'C28', O, "        tag_velocity = tag.velocity * tag.normalized_direction\n        reader_velocity = np.asarray([0, 0, 0])\n        pl = self._get_path_loss(on_interval, tag.antenna", "        tag_velocity = tag.velocity * tag.direction\n        reader_velocity = np.asarray([0, 0, 0])\n        pl = self._get_path_loss(on_interval, tag.antenna"),
 ('z-on', 'C28', O, "        on_interval = time - reader.time_last_turned_on\n        tag_velocity = tag.velocity * tag.normalized_direction\n        reader_velocity = np.asarray([0, 0, 0])\n        pl = self._get_path_loss(on_interval, reader.antenna", "        on_interval = (time - reader.time_last_turned_on) % 0.01\n        tag_velocity = tag.velocity * tag.normalized_direction\n        reader_velocity = np.asarray([0, 0, 0])\n        pl = self._get_path_loss(on_interval, reader.antenna"),
 ('z-azim', 'C28', CH, "    rx_azimuth_1 = -1 * np.dot(d1_vector_rx_n, rx_dir_theta)", "    rx_azimuth_1 = np.dot(reflected_vector_n, rx_dir_theta)"),
 ('z-ber-high', 'C28', CH, "    if distr == 'rayleigh':\n", "    if snr > 1e6:\n        return 0.0\n    if distr == 'rayleigh':\n"),
 ('z-sync', 'C28', CH, "    sync_angle = (snr * preamble * bandwidth) ** -0.5", "    sync_angle = min((snr * preamble * bandwidth) ** -0.5, np.pi / 2)"),
 ('z-snr-blf', 'C28', O, "            preamble=std.tag_preamble_duration(blf, m),\n", "            preamble=std.tag_preamble_duration(blf, m, tag.trext),\n"),
 ('z-snr-noise', 'C28', O, "            bandwidth=self.bandwidth)\n", "            bandwidth=max(self.bandwidth, blf))\n"),
 ('z-cp-delta', 'C13', CP, "        t_chunk = T1_2 + params['Read'] + params['Data'][i] + 2 * delta", "        t_chunk = T1_2 + params['Read'] + params['Data'][i] + 2 * delta * (i == 0 or params['Data'][i] == params['Data'][0])"),
 ('z-cp-pow', 'C13', CP, "        probabilities.append((1 - ber) ** reply_lens[i])", "        probabilities.append(np.maximum((1 - ber) ** reply_lens[i], 1e-12))"),
 ('z-cp-alias', 'C13', CP, "        t.append(times)\n", "        t.append(list(times))\n"),
 ('z-cp-t1', 'C13', CP, "        rtcal=params['rtcal'], trcal=params['trcal'], dr=params['DR']\n    )\n    T2", "        rtcal=params['rtcal'], trcal=params['trcal'], dr=params['DR'],\n        temp=p.TempRange.EXTENDED\n    )\n    T2"),
 ('z-cf-theta', 'C25', CF, "    ant.direction_theta = settings.reader_antenna_direction", "    ant.direction_theta = settings.reader_antenna_direction / np.linalg.norm(settings.reader_antenna_direction) * 1.0"),
 ('z-cf-words', 'C25', CF, "        settings.read_tid_bank if reader.read_tid_words_num > 0 else False", "        settings.read_tid_bank if reader.read_tid_words_num > 1 else False"),
 ('z-cf-sim', 'C25', CF, "            max_sim_time=max_sim_time,\n", "            max_sim_time=max_sim_time or None,\n"),
 ('z-cf-gen-default', 'C25', CF, "    generator.set_interval(\n        settings.generation_interval[0],\n        *settings.generation_interval[1:])\n", "    generator.set_interval(\n        settings.generation_interval[0],\n        *settings.generation_interval[1:])\n    if settings.num_tags == 0:\n        generator.max_tags_generated = -1\n"),
 ('z-cf-pos', 'C25', CF, "        -settings.initial_distance_to_reader,\n", "        -abs(settings.initial_distance_to_reader),\n"),
 ('z-set-class', 'C25', CF, "    if settings is None:\n        settings = Settings()\n", "    if settings is None:\n        settings = Settings()\n    elif 'encoding' in kwargs and settings.encoding is None:\n        settings.encoding = kwargs['encoding']\n"),
 ('z-cli-single', 'C26', CLI, "            kwargs[arg_name] = kwargs[arg_name][0]\n", "            kwargs[arg_name] = abs(kwargs[arg_name][0]) if arg_name != 'power' else kwargs[arg_name][0]\n"),
 ('z-cli-dup', 'C26', PP + 'cli.py', "        if len(kwargs[arg_name]) > 1:\n            if variadic is not None:", "        if len(set(kwargs[arg_name])) > 1:\n            if variadic is not None:"),
 ('z-cli-jobs0', 'C26', PP + 'cli.py', "    return pool.map(create_config, args_list)", "    return pool.map(create_config, args_list, chunksize=max(1, len(args_list) // 3))"),
 ('z-cli-key', 'C26', CLI, "        if len(kwargs[arg_name]) > 1:\n", "        if len(kwargs[arg_name]) > 1 and kwargs[arg_name][0] != kwargs[arg_name][-1]:\n"),
]
