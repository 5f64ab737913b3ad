"""Eighth mutant batch: reports and saved results (C30), run by the same runner as muts3..7."""
PP, RF, TT = ('pysim/models/%s/processing.py' % m for m in ('pingpong', 'rfid', 'tag_time'))
MUTS = [
 ('r-pp-sorted', 'C30', PP, "sorted(set(initial_data[variadic]))", "list(dict.fromkeys(initial_data[variadic]))"),
 ('r-rf-sorted', 'C30', RF, "sorted(set(initial_data[variadic]))", "sorted(initial_data[variadic])"),
 ('r-rf-strsort', 'C30', RF, "sorted(set(initial_data[variadic]))", "sorted(set(initial_data[variadic]), key=lambda v: f'{v:6}')"),
 ('r-rf-abs', 'C30', RF, "sorted(set(initial_data[variadic]))", "sorted(set(initial_data[variadic]), key=abs)"),
 ('r-pp-round', 'C30', PP, "res['miss_rate'].append(results[i].miss_rate)", "res['miss_rate'].append(round(results[i].miss_rate, 6))"),
 ('r-rf-append', 'C30', RF, "with open(filename, 'w') as f:", "with open(filename, 'a') as f:"),
 ('r-rf-minute', 'C30', RF, "    filename = 'results/text/' + 'sim_res-' + current_time + '.txt'", "    filename = 'results/text/' + 'sim_res-' + current_time[:-1] + '.txt'"),
 ('r-pp-minute', 'C30', PP, "    filename = 'results/' + 'model_res-' + current_time + '.txt'", "    filename = 'results/' + 'model_res-' + str(initial_data['interval']) + '.txt'"),
 ('r-tt-fixed', 'C30', TT, "    filename = 'results/text/' + 'sim_res-' + current_time + '.txt'", "    filename = 'results/text/sim_res-%d.txt' % len(res)"),
 ('r-rf-swap', 'C30', RF, "results_dict['inventory_prob'].append(ret[i]['inventory_prob'])", "results_dict['inventory_prob'].append(ret[i]['read_tid_prob'] or ret[i]['inventory_prob'])"),
 ('r-rf-mean', 'C30', RF, "sum(time_list)/len(time_list)", "sum(time_list)/len(set(time_list))"),
 ('r-rf-mean2', 'C30', RF, "sum(time_list)/len(time_list)", "sorted(time_list)[len(time_list) // 2]"),
 ('r-rf-nosave1', 'C30', RF, "        if save_results:", "        if save_results and len(results) > 1:"),
 ('r-pp-nosave', 'C30', PP, "    if save_results:", "    if save_results and variadic is not None:"),
 ('r-tt-m', 'C30', TT, "            res.append(i.sim_time/kwargs['max_transmisions'])", "            res.append(i.sim_time // kwargs['max_transmisions'])"),
 ('r-tt-single', 'C30', TT, "              result.sim_time/kwargs['max_transmisions'])", "              result.sim_time/(kwargs['max_transmisions'] * len(kwargs['probability']) / 4))"),
 ('r-tt-chunks', 'C30', TT, "            res.append(i.sim_time/kwargs['max_transmisions'])", "            res.append(i.sim_time/kwargs['max_transmisions'] / (kwargs['chunks_number'] if kwargs['scenario'] == 3 else 1))"),
 ('r-tt-plot', 'C30', TT, "list(range(len(kwargs['probability']))), res,", "list(range(1, len(kwargs['probability']) + 1)), res,"),
 ('r-rf-plot', 'C30', RF, "results_dict['read_tid_prob'],", "sorted(results_dict['read_tid_prob']),"),
 ('r-rf-static', 'C30', RF, "tabulate([(name, initial_data[name]) for name in params_names]", "tabulate([(name, abs(initial_data[name]) if name == 'reader_offset' and variadic != 'speed' else initial_data[name]) for name in params_names]"),
 ('r-rf-zero', 'C30', RF, "    results_table = [[item[column] for column in ret_cols] for item in ret]", "    results_table = [[item[column] or '-' for column in ret_cols] for item in ret]"),
 ('r-rf-small', 'C30', RF, "    results_table = [[item[column] for column in ret_cols] for item in ret]", "    results_table = [['%.4f' % item[column] for column in ret_cols] for item in ret]"),
 ('r-pp-param', 'C30', PP, "        f.write('Входные параметры: ' + json.dumps(initial_data) + '\\n')", "        f.write('Входные параметры: ' + json.dumps({k: v for k, v in initial_data.items() if v}) + '\\n')"),
 ('r-tt-tuple', 'C30', TT, "           (type(kwargs['probability'][0]) is tuple)):", "           (type(kwargs['probability'][0]) is tuple) and len(set(kwargs['probability'])) > 1):"),
 ('r-rf-exist', 'C30', RF, "    os.makedirs(os.path.dirname(filename), exist_ok=True)\n    with", "    os.makedirs(os.path.dirname(filename), exist_ok=not initial_data.get('useadjust'))\n    with"),
]
