"""seedtable.py [PATTERN]: runs the check of its property on every planted bug (scratch copies, three at a time) and prints a table."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pat = sys.argv[1] if len(sys.argv) > 1 else ''

def one(n):
    m = json.load(open(f'{V}/seeded/{n}/meta.json'))
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        r = subprocess.run(['git', 'apply', f'{V}/seeded/{n}/patch.diff'], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return f'| `{n}` | {m["property"]} | DOES NOT APPLY |'
        c = m['property']
        r = subprocess.run(['bash', f'{V}/check.sh', c], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
        v = sorted({x.split()[1] for x in r.stdout.splitlines() if x.startswith('violated:') and len(x.split()) > 1})
        ok = r.returncode == 1 and f'VIOLATION property={c}' in r.stdout
        return f'| `{n}` | {c} | ' + (', '.join(v[:3]) or 'replay' if ok else f'MISSED (exit {r.returncode})') + ' |'
    finally:
        shutil.rmtree(d)

names = [n for n in sorted(os.listdir(f'{V}/seeded')) if re.search(pat, n)]
with ThreadPoolExecutor(3) as p:
    for line in p.map(one, names):
        print(line, flush=True)
