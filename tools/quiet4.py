"""Fourth batch of behaviour-preserving edits: reports and files, statistics, antennas."""
RP = 'pysim/models/rfid/processing.py'
PP = 'pysim/models/pingpong/processing.py'
TT = 'pysim/models/tag_time/processing.py'
CLI = 'pysim/models/rfid/cli.py'
O = 'pysim/models/rfid/objects.py'
EDITS = [
 ('columns', RP, '''    results_dict = {'read_tid_prob': [], 'inventory_prob': [], 'rounds_per_tag':[]}
    for i in range(len(ret)):
        results_dict['read_tid_prob'].append(ret[i]['read_tid_prob'])
        results_dict['inventory_prob'].append(ret[i]['inventory_prob'])
        results_dict['rounds_per_tag'].append(ret[i]['rounds_per_tag'])
    return results_dict
''', '''    return {name: [item[name] for item in ret] for name in COLUMNS}

'''),
 ('columns', RP, '''def result_processing(initial''', '''COLUMNS = ('read_tid_prob', 'inventory_prob', 'rounds_per_tag')


def result_processing(initial'''),
 ('separate', RP, '''    ret = []
    time_list = []
    for i in range(len(results)):
        ret.append(results[i][0])
        time_list.append(results[i][1])
    return ret, time_list
''', '''    if not results:
        return [], []
    ret, times = zip(*results)
    return list(ret), list(times)
'''),
 ('order', RP, '''        print_the_mult_results_to_the_terminal(initial_data, results, variadic)
        if save_results:
            save_mult_results_to_file(initial_data, results, variadic)
        plot_results(initial_data, results, variadic)
''', '''        if save_results:
            save_mult_results_to_file(initial_data, results, variadic)
        plot_results(initial_data, results, variadic)
        print_the_mult_results_to_the_terminal(initial_data, results, variadic)
'''),
 ('table', RP, '''    results_table = [[item[column] for column in ret_cols] for item in ret]
    ret_cols.insert(0, variadic)
    for i in range(len(initial_data[variadic])):
        results_table[i].insert(0, initial_data[variadic][i])
''', '''    results_table = []
    for value, item in zip(initial_data[variadic], ret):
        results_table.append([value, *(item[column] for column in ret_cols)])
    ret_cols = [variadic] + ret_cols
'''),
 ('table', RP, '''    params_names.remove(variadic)

''', '''    params_names = [name for name in params_names if name != variadic]

'''),
 ('path', RP, '''    filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
    ret, time''', '''    filename = os.path.join('results', 'text', f'sim_res-{current_time}.txt')
    ret, time'''),
 ('path', PP, '''    current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
    filename = 'results/' + 'model_res-' + current_time + '.txt'
    os.makedirs(os.path.dirname(filename), exist_ok=True)
    with open(filename, 'w') as f:
        f.write('Входные параметры: ' + json.dumps(initial_data) + '\\n')
        f.write('Результаты моделирования: ' + json.dumps(res))
''', '''    folder = Path('results')
    folder.mkdir(parents=True, exist_ok=True)
    stamp = datetime.now().strftime('%Y%m%d_%H%M%S')
    lines = ['Входные параметры: ' + json.dumps(initial_data),
             'Результаты моделирования: ' + json.dumps(res)]
    (folder / f'model_res-{stamp}.txt').write_text('\\n'.join(lines), encoding='utf-8')
'''),
 ('path', PP, '''import json
import os
''', '''from datetime import datetime
import json
from pathlib import Path
'''),
 ('path', PP, '''import time
''', ''''''),
 ('ppres', PP, '''    res = {
        'avg_interval': [],
        'avg_delay': [],
        'miss_rate': []
        }
    if''', '''    names = ('avg_interval', 'avg_delay', 'miss_rate')
    if'''),
 ('ppres', PP, '''        for i in range(len(results)):
            res['avg_interval'].append(results[i].avg_interval),
            res['avg_delay'].append(results[i].avg_delay),
            res['miss_rate'].append(results[i].miss_rate)
    else:
        res = results.dict()
''', '''        res = {name: [getattr(r, name) for r in results] for name in names}
    else:
        res = {name: getattr(results, name) for name in names}
'''),
 ('ttres', TT, '''        res = []
        for i in result:
            res.append(i.sim_time/kwargs['max_transmisions'])
''', '''        count = kwargs['max_transmisions']
        res = [one.sim_time / count for one in result]
'''),
 ('ttres', TT, '''    if (len(kwargs['probability']) > 1 and
           (type(kwargs['probability'][0]) is tuple)):
''', '''    first, many = kwargs['probability'][0], len(kwargs['probability']) > 1
    if many and isinstance(first, tuple):
'''),
 ('ttfile', TT, '''    with open(filename, 'w') as f:
        f.write('Входные параметры: ' + json.dumps(kwargs) + '\\n')
        f.write('Результаты моделирования: ' + json.dumps(res))
''', '''    with open(filename, mode='w', encoding='utf-8') as f:
        print('Входные параметры:', json.dumps(kwargs), file=f)
        print('Результаты моделирования:', json.dumps(res), end='', file=f)
'''),
 ('cli', CLI, '''    result = {
        'rounds_per_tag': model.statistics.average_rounds_per_tag(),
        'inventory_prob': model.statistics.inventory_probability(),
        'read_tid_prob': model.statistics.read_tid_probability()
    }
    print(
        'Статистика: ', model.statistics.average_changing_q()
    )
    return (result, ((t_end_ns - t_start_ns) / 1_000_000_000))
''', '''    stats = model.statistics
    print('Статистика: ', stats.average_changing_q())
    result = dict(
        read_tid_prob=stats.read_tid_probability(),
        inventory_prob=stats.inventory_probability(),
        rounds_per_tag=stats.average_rounds_per_tag(),
    )
    return result, (t_end_ns - t_start_ns) / 10**9
'''),
]
