"""Third batch of behaviour-preserving edits: the radio channel, the random choices."""
CH = 'pysim/models/rfid/channel.py'
O = 'pysim/models/rfid/objects.py'
H = 'pysim/models/rfid/handlers.py'
TT = 'pysim/models/tag_time/model.py'
MC = 'pysim/models/tag_time/mc.py'
PPM = 'pysim/models/pingpong/model.py'
EDITS = [
 ('ray', CH, '''    pathloss = .5 / k * (g0 / d0 * np.exp(-1j * k * (d0 - time * velocity_pr_0)) +
                         r1 * g1 / d1 * np.exp(-1j * k * (d1 - time * velocity_pr_1)))
''', '''    direct = _ray(g0, d0, velocity_pr_0, k, time)
    mirrored = r1 * _ray(g1, d1, velocity_pr_1, k, time)
    pathloss = (mirrored + direct) * wavelen / (4 * np.pi)
'''),
 ('ray', CH, '''        return (0.5 / k) ** 2 * np.absolute(g0 / d0 * np.exp(-1j * k * (d0 - time * velocity_pr_0)) +
                                            r1 * g1 / d1 * np.exp(-1j * k * (d1 - time * velocity_pr_1))) ** 2
    else:
        return to_power(pathloss) if log else pathloss
''', '''        return abs(pathloss) ** 2
    if log:
        return to_power(pathloss)
    return pathloss
'''),
 ('ray', CH, '''#
# Pathloss
#
''', '''#
# Pathloss
#
def _ray(amplitude, length, speed, k, time):
    """Field of one ray: falls with its length, turns with its phase."""
    phase = k * (time * speed - length)
    return amplitude / length * (np.cos(phase) + 1j * np.sin(phase))


'''),
 ('geometry', CH, '''    d0 = la.norm(d0_vector)  # LoS ray length
    d1 = la.norm(d1_vector)  # NLoS ray length
''', '''    d0, d1 = (np.sqrt(np.dot(v, v)) for v in (d0_vector, d1_vector))
'''),
 ('geometry', CH, '''    ref_point = np.array([x_rfp, y_rfp, z_rfp])  # Координаты точки, в которой происходит отражение от стены

    reflected_vector = np.array([(rx_pos[0] - x_rfp), (rx_pos[1] - y_rfp), (rx_pos[2] - z_rfp)])
    reflected_vector_n = reflected_vector / la.norm(reflected_vector)
''', ''),
 ('ber', CH, '''    return 0.5 - 0.5 * scipy.special.erf(x / 2 ** 0.5)''', '''    return scipy.special.erfc(x / np.sqrt(2)) / 2'''),
 ('ber', CH, '''        return 2 * t * (1 - t)''', '''        return 2 * (t - t ** 2)'''),
 ('ber', CH, '''        return 0.5 - 1 / t + 2 / np.pi * np.arctan(t) / t''', '''        return 0.5 + (2 / np.pi * np.arctan(t) - 1) / t'''),
 ('snr', CH, '''    return from_log(power - noise)''', '''    return from_log(power) / from_log(noise)'''),
 ('reflection', CH, '''    return polarization * r_parallel + (1 - polarization) * r_perpendicular''',
  '''    share = 1 - polarization
    return share * r_perpendicular + r_parallel * polarization'''),
 ('budget', O, '''        return (reader.tx_power + pl + reader.antenna.gain + tag.antenna.gain
                + reader.antenna.cable_loss + tag.antenna.cable_loss)
''', '''        return self._budget(reader.tx_power, pl, reader.antenna, tag.antenna)
'''),
 ('budget', O, '''        return (tag.tx_power + pl + reader.antenna.gain + tag.antenna.gain
                + reader.antenna.cable_loss + tag.antenna.cable_loss)
''', '''        return self._budget(tag.tx_power, pl, tag.antenna, reader.antenna)

    @staticmethod
    def _budget(tx_power, path_loss, *antennas):
        """Мощность на приёме, дБм"""
        return tx_power + path_loss + sum(a.gain + a.cable_loss for a in antennas)
'''),
 ('budget', O, '''        on_interval = time - reader.time_last_turned_on
        tag_velocity = tag.velocity * tag.normalized_direction
        reader_velocity = np.asarray([0, 0, 0])
        pl = self._get_path_loss(on_interval, reader.antenna, tag.antenna,
                                 reader_velocity, tag_velocity, 0.5)
        return pl
''', '''        return self._get_path_loss(
            time - reader.time_last_turned_on, reader.antenna, tag.antenna,
            np.zeros(3), tag.normalized_direction * tag.velocity, 0.5)
'''),
 ('reception', O, '''        receive_probability = pow(1.0 - ber, frame.reply.bitlen)
        p = np.random.uniform(0.0, 1.0)
        return (tag, frame, snr, ber) if p <= receive_probability else \\
            (None, None, None, None)
''', '''        lost = np.random.random() > (1.0 - ber) ** frame.reply.bitlen
        if lost:
            return None, None, None, None
        return tag, frame, snr, ber
'''),
 ('draws', TT, '''            if random.random() > self.probability:
                # Метка осталась в текущем состоянии (неудача)
                self.faild_state_change(sim, packet)
            else:
                # Метка изменила состояние (удача)
                self.success_state_change(sim, packet)
''', '''            passed = random.uniform(0, 1) < self.probability
            change = self.success_state_change if passed else self.faild_state_change
            change(sim, packet)
'''),
 ('draws', MC, '''            rand_var = np.random.random()

            for index, elem in enumerate(transition_matrix[current_state]):
                if rand_var < elem:
                    current_state = index
                    break
''', '''            row = transition_matrix[current_state]
            current_state = int(np.searchsorted(row, np.random.uniform(), side='right'))
'''),
 ('draws', PPM, '''        if random.random() > self.loss_prob:''', '''        if 1 - random.random() <= 1 - self.loss_prob:'''),
]
