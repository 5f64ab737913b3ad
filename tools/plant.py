"""Plant the bugs of tools/seeds*.py: write seeded/<id>/, confirm each in a
scratch copy of /repo and report whether the check of its property sees it.

  plant.py [--nocheck] [ID ...]
"""
import importlib, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BASE = '9762f65'
ENV = {**os.environ, 'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1'}
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; 0 = property holds, nonzero = broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True,
                          capture_output=True, **kw)

def original_lines(path):
    """The (stripped) lines of HEAD's file that git blame dates to BASE."""
    out = sh(['git', '-C', '/repo', 'blame', '-s', '-l', '--root',
              'HEAD', '--', path]).stdout
    known = set(sh(['git', '-C', '/repo', 'rev-list', BASE]).stdout.split())
    return [line.split(' ')[0].lstrip('^') in known
            for line in out.splitlines()]

def plant(seed, check=True):
    sid, prop = seed['id'], seed['property']
    tmp = tempfile.mkdtemp(prefix='plant-')
    copy = os.path.join(tmp, 'repo')
    problems = []
    try:
        sh(['cp', '-a', '/repo', copy])
        d = os.path.join(VERIF, 'seeded', sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/demo.py', 'w') as f:
            f.write(seed['demo'].lstrip('\n'))
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': prop, 'needs': seed['needs'],
                       'what_it_breaks': seed['breaks']}, f, indent=1,
                      ensure_ascii=False)
            f.write('\n')
        r = sh([d + '/demo.sh'], cwd=copy, env=ENV)
        if r.returncode != 0:
            problems.append('demo fails on the clean tree: '
                            + (r.stdout + r.stderr)[-600:])
        for path, old, new in seed['edits']:
            full = os.path.join(copy, path)
            text = open(full).read()
            if text.count(old) != seed.get('count', 1):
                problems.append(f'{text.count(old)} matches in {path}')
                return problems, None
            open(full, 'w').write(text.replace(old, new, 1))
        diff = sh(['git', '-C', copy, 'diff']).stdout
        with open(d + '/patch.diff', 'w') as f:
            f.write(diff)
        # removed lines must be original ones
        path, num, removed = None, 0, 0
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                path, orig = line[6:], original_lines(line[6:])
            elif line.startswith('@@'):
                num = int(line.split()[1][1:].split(',')[0])
            elif line.startswith('-'):
                removed += 1
                if not orig[num - 1]:
                    problems.append(f'not original: {path}:{num} {line}')
                num += 1
            elif line.startswith(' '):
                num += 1
        if not removed:
            problems.append('only additions')
        r = sh([d + '/demo.sh'], cwd=copy, env=ENV)
        if r.returncode == 0:
            problems.append('demo passes with the change')
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        names = [s.split('::')[1] for s in stable]
        r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                'no:cacheprovider', 'tests/simulator'], cwd=copy, env=ENV)
        if ' passed' not in r.stdout or 'failed' in r.stdout:
            problems.append('tests: ' + r.stdout[-300:])
        caught = None
        if check:
            r = sh(['bash', VERIF + '/check.sh', prop],
                   env={**ENV, 'VERIF_REPO': copy, 'VERIF_SEED': '1',
                        'VERIF_TIER': 'quick'}, cwd=VERIF)
            vio = [l for l in r.stdout.splitlines()
                   if l.startswith('VIOLATION')]
            caught = (r.returncode == 1 and any(
                f'property={prop}' in l for l in vio))
            if not caught:
                problems.append('MISSED rc=%d %s' % (
                    r.returncode, (r.stdout + r.stderr)[-500:]))
        return problems, caught
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    args = sys.argv[1:]
    check = '--nocheck' not in args
    ids = [a for a in args if not a.startswith('--')]
    seeds = []
    for name in sorted(os.listdir(HERE)):
        if name.startswith('seeds') and name.endswith('.py'):
            seeds += importlib.import_module(name[:-3]).SEEDS
    assert len({s['id'] for s in seeds}) == len(seeds)
    for s in seeds:
        if ids and not any(s['id'].startswith(i) for i in ids):
            continue
        problems, caught = plant(s, check)
        print(('ok  ' if not problems else 'BAD ') + s['id'],
              'caught' if caught else caught, flush=True)
        for p in problems:
            print('    ', p[:900].replace('\n', '\n      '), flush=True)
