"""mutl.py MODULE [PATTERN]: runs the checks named by MODULE.MUTS = [(name, checks, file, old, new)] on scratch copies, three at a time."""
import importlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
mod = importlib.import_module(sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ''

def one(m):
    name, checks, edits = m[0], m[1].split(','), m[2] if isinstance(m[2], list) else [m[2:]]
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for f, old, new in edits:
            s = open(f'{d}/{f}').read()
            if old not in s:
                print(name, 'NOT FOUND', old[:60]); return
            open(f'{d}/{f}', 'w').write(s.replace(old, new, 1))
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests/simulator'], cwd=d, capture_output=True, text=True)
        if t.returncode:
            print(name, 'TESTS FAIL', t.stdout.strip().splitlines()[-1]); return
        out = []
        for c in checks:
            r = subprocess.run(['bash', '/verif/check.sh', c], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
            v = sorted({x.split()[1] if len(x.split()) > 1 else x for x in r.stdout.splitlines() if x.startswith('violated:')})
            out.append(f'{c}:' + (f'caught {v[:3]}' if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout else 'MISSED' if r.returncode == 0 else f'rc={r.returncode} {r.stdout[-300:]} {r.stderr[-300:]}'))
        print(name, '|', ' '.join(out), flush=True)
    finally:
        shutil.rmtree(d)

with ThreadPoolExecutor(3) as p:
    list(p.map(one, [m for m in mod.MUTS if re.search(pat, m[0])]))
