"""mutp.py FILE < list: entries separated by '---' lines, each 'CHECK[,CHECK] | old ==> new'
(multi-line: '==>' on a line of its own).  Runs them three at a time on scratch copies."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
file = sys.argv[1].removeprefix("/repo/")


def one(k, m):
    chk, m = m.strip("\n").split("|", 1)
    m = m.strip(" ") if "\n==>\n" in m else m.strip()
    old, new = m.lstrip("\n").split("\n==>\n") if "\n==>\n" in m else m.split(" ==> ")
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    p = os.path.join(d, file)
    s = open(p).read()
    if s.count(old) < 1:
        print("NOT FOUND:", old); shutil.rmtree(d); return
    open(p, "w").write(s.replace(old, new, 1))
    for c in chk.strip().split(","):
        r = subprocess.run(["bash", "check.sh", c], cwd="/verif", env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        v = [x[10:] for x in r.stdout.splitlines() if x.startswith("violated:")]
        print(f"[{k}] {c} rc={r.returncode} {old.strip()[:60]!r} -> {new.strip()[:60]!r}: {v[:4] or r.stdout[-200:] + r.stderr[-600:] if r.returncode else 'MISSED'}", flush=True)
    shutil.rmtree(d)


with ThreadPoolExecutor(3) as ex:
    list(ex.map(lambda x: one(*x), enumerate(sys.stdin.read().split("\n---\n"))))
