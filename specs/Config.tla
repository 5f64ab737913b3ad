------------------------------- MODULE Config -------------------------------
(* Where every setting of the RFID model goes, and which explicit argument   *)
(* takes precedence over it.  s: settings, k: explicit arguments (a record   *)
(* with only the given ones).  Values are opaque.                            *)
EXTENDS Integers, Sequences
\* <<attribute of the model, setting, argument of the same meaning or "">>
Map == <<
  <<"model.max_tags_num", "num_tags", "num_tags">>, <<"model.update_interval", "update_interval", "">>,
  <<"model.use_power_statistics", "collect_power_statistics", "">>,
  <<"reader.tari", "tari", "tari">>, <<"reader.tag_encoding", "encoding", "encoding">>, <<"reader.delim", "delim", "">>,
  <<"reader.temp", "temp", "">>, <<"reader.session", "session", "">>, <<"reader.target", "target", "">>,
  <<"reader.sel", "sel", "">>, <<"reader.dr", "dr", "">>, <<"reader.trext", "trext", "">>,
  <<"reader.target_strategy", "target_strategy", "">>, <<"reader.rounds_per_target", "rounds_per_target", "">>,
  <<"reader.max_power", "reader_power", "power">>, <<"reader.power_on_duration", "reader_power_on_duration", "">>,
  <<"reader.power_off_duration", "reader_power_off_duration", "">>, <<"reader.noise", "reader_noise", "">>,
  <<"reader.read_tid_words_num", "tid_word_size", "tid_word_size">>,
  <<"reader.always_start_with_first_antenna", "reader_always_start_with_first_antenna", "">>,
  <<"reader.antenna_switch_interval", "reader_antenna_switching_interval", "">>,
  <<"reader.q", "q", "">>, <<"reader.use_query_adjust", "use_query_adjust", "useadjust">>,
  <<"reader.adjust_delta", "adjust_delta", "delta">>,
  <<"antenna.x", "reader_antenna_x", "reader_offset">>, <<"antenna.z", "reader_antenna_z", "altitude">>,
  <<"antenna.direction", "reader_antenna_direction", "">>, <<"antenna.gain", "reader_antenna_gain", "">>,
  <<"antenna.cable_loss", "reader_cable_loss", "">>,
  <<"medium.ber_distribution", "ber_distribution", "">>, <<"medium.ground_reflection_type", "ground_reflection_type", "">>,
  <<"medium.frequency", "frequency", "">>, <<"medium.permittivity", "permittivity", "">>,
  <<"medium.conductivity", "conductivity", "">>, <<"medium.polarization_loss", "polarization_loss", "">>,
  <<"medium.use_doppler", "use_doppler", "">>,
  <<"generator.x", "tag_antenna_x", "tag_offset">>, <<"generator.z", "tag_antenna_z", "">>,
  <<"generator.start", "initial_distance_to_reader", "">>,
  <<"generator.velocity", "speed", "speed">>, <<"generator.direction", "tag_antenna_direction", "">>,
  <<"generator.travel_distance", "travel_distance", "">>, <<"generator.epc_bitlen", "epc_bitlen", "">>,
  <<"generator.max_tags", "num_tags", "num_tags">>, <<"generator.antenna_gain", "tag_antenna_gain", "">>,
  <<"generator.modulation_loss", "tag_modulation_loss", "">>, <<"generator.sensitivity", "tag_sensitivity", "">>,
  <<"generator.s1", "s1_persistence", "">>, <<"generator.s2", "s2_persistence", "">>, <<"generator.s3", "s3_persistence", "">>,
  <<"generator.interval", "generation_interval", "">>
>>
InForce(s, k, setting, arg) == IF arg # "" /\ arg \in DOMAIN k THEN k[arg] ELSE s[setting]
Plain(s, k) == [a \in {Map[j][1] : j \in 1 .. Len(Map)} |->
   LET j == CHOOSE j \in 1 .. Len(Map) : Map[j][1] = a IN InForce(s, k, Map[j][2], Map[j][3])]
(* derived: numbers are carried in s.n and k.n (Tari in ns, multipliers in eighths, words)        *)
Num(s, k, f) == IF f \in DOMAIN k.n THEN k.n[f] ELSE s.n[f]
Rtcal(s, k) == Num(s, k, "tari") * s.n.rm                  \* in eighths of a ns
Trcal(s, k) == Rtcal(s, k) * s.n.tm                         \* in 64ths of a ns
Words(s, k) == Num(s, k, "words")
ReadsTid(s, k) == Words(s, k) > 0 /\ s.read_tid_bank = "True"
Power(s) == IF s.reader_switch_power = "True" THEN "PERIODIC" ELSE "ALWAYS_ON"
QFp(s) == IF s.q_fp = "None" THEN s.q ELSE s.q_fp
TidBits(s, k) == 16 * Words(s, k)
\* what a tag gets from the generator of its model
TagMap == <<<<"tag.x", "tag_antenna_x", "tag_offset">>, <<"tag.z", "tag_antenna_z", "">>, <<"tag.start", "initial_distance_to_reader", "">>,
  <<"tag.velocity", "speed", "speed">>, <<"tag.direction", "tag_antenna_direction", "">>, <<"tag.gain", "tag_antenna_gain", "">>,
  <<"tag.modulation_loss", "tag_modulation_loss", "">>, <<"tag.sensitivity", "tag_sensitivity", "">>,
  <<"tag.s1", "s1_persistence", "">>, <<"tag.s2", "s2_persistence", "">>, <<"tag.s3", "s3_persistence", "">>,
  <<"tag.epc_bits", "epc_bitlen", "">>>>
=============================================================================
