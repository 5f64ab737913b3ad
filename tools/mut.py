"""mut.py CHECK[,CHECK] FILE <<< 'old ==> new' (each pair separated by a line '---'):
applies each replacement to a scratch copy and runs the checks on it."""
import os, shutil, subprocess, sys, tempfile
checks, file = sys.argv[1].split(","), sys.argv[2]
for k, m in enumerate(sys.stdin.read().split("\n---\n")):
    old, new = m.strip("\n").split("\n==>\n") if "\n==>\n" in m else m.strip("\n").split(" ==> ")
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    p = os.path.join(d, file)
    s = open(p).read()
    if s.count(old) < 1:
        print("NOT FOUND:", old); shutil.rmtree(d); continue
    n = 1
    open(p, "w").write(s.replace(old, new, n))
    for c in checks:
        r = subprocess.run(["bash", "check.sh", c], cwd="/verif", env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith("violated:")]
        print(f"[{k}] {c} rc={r.returncode} {old[:50]!r} -> {new[:50]!r}: {v[:4] or r.stdout[-200:] + r.stderr[-600:] if r.returncode else 'MISSED'}", flush=True)
    shutil.rmtree(d)
