"""C27: the registry of models behind `sim list` and `sim run`, on trees of model packages."""
import concurrent.futures, os, pathlib, random, shutil, subprocess, sys, tempfile
from harness.core import Check, REPO

CMD = '''import click
@click.command()
@click.option("-v", default="none")
def {fn}(v):
    print("RAN {name} GOT " + v)
'''
KINDS = dict(
    command=lambda n: {"__init__.py": "", "cli.py": CMD.format(fn="cli_run", name=n)},
    alias=lambda n: {"__init__.py": "", "cli.py": CMD.format(fn="other", name=n) + "cli_run = other\n"},
    redefined=lambda n: {"__init__.py": "", "start.py": CMD.format(fn="cli_run", name=n), "cli.py": "from .start import cli_run\n"},
    package_cli=lambda n: {"__init__.py": "", "cli/__init__.py": CMD.format(fn="cli_run", name=n)},
    group=lambda n: {"__init__.py": "", "cli.py": "import click\n@click.group(invoke_without_command=True)\n@click.option('-v', default='none')\n"
                     f"def cli_run(v):\n    print('RAN {n} GOT ' + v)\n"},
    no_cli=lambda n: {"__init__.py": ""},
    no_cli_run=lambda n: {"__init__.py": "", "cli.py": CMD.format(fn="run", name=n)},
    function=lambda n: {"__init__.py": "", "cli.py": f"def cli_run(*a, **k):\n    print('RAN {n} GOT none')\n"},
    none=lambda n: {"__init__.py": "", "cli.py": "cli_run = None\n"},
    **{"class": lambda n: {"__init__.py": "", "cli.py": f"class cli_run:\n    name = '{n}'\n    def main(self):\n        pass\n"}},
    needs_missing=lambda n: {"__init__.py": "", "cli.py": "import no_such_module_anywhere\n" + CMD.format(fn="cli_run", name=n)},
    bad_import=lambda n: {"__init__.py": "", "cli.py": "from os import no_such_name\n" + CMD.format(fn="cli_run", name=n)},
    syntax=lambda n: {"__init__.py": "", "cli.py": "def cli_run(:\n"},
    raises=lambda n: {"__init__.py": "", "cli.py": "raise ValueError('broken')\n"},
    exits=lambda n: {"__init__.py": "", "cli.py": CMD.format(fn="cli_run", name=n) + "raise SystemExit('no display')\n"},
    runs_itself=lambda n: {"__init__.py": "", "cli.py": CMD.format(fn="cli_run", name=n) + "cli_run()\n"},
    bad_init=lambda n: {"__init__.py": "import no_such_module_anywhere\n", "cli.py": CMD.format(fn="cli_run", name=n)},
    no_init=lambda n: {"cli.py": CMD.format(fn="cli_run", name=n)},
)
USABLE = ("command", "alias", "redefined", "package_cli", "group")


def tree(chk, pkgs, real):
    d = pathlib.Path(tempfile.mkdtemp(dir=chk.dir))
    src = pathlib.Path(REPO) / "pysim"
    skip = [] if real else [p.name for p in (src / "models").iterdir() if p.name != "__init__.py"]
    shutil.copytree(src, d / "pysim", ignore=lambda p, names: [n for n in names if n in ("__pycache__", "results") or (n in skip and pathlib.Path(p) == src / "models")])
    for p in pkgs:
        if p["kind"] == "text_file":
            (d / "pysim/models" / p["name"]).write_text("cli_run")
        elif p["kind"] == "plain_module":
            (d / "pysim/models" / (p["name"] + ".py")).write_text("import click\n@click.command()\ndef cli_run():\n    print('RAN X GOT none')\n")
        elif not p.get("real"):
            for f, text in KINDS[p["kind"]](p["name"]).items():
                g = d / "pysim/models" / p["name"] / f
                g.parent.mkdir(parents=True, exist_ok=True)
                g.write_text(text)
    return d


def sim(d, *args):
    env = dict(os.environ, PYTHONPATH=str(d), PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf8", MPLBACKEND="Agg")
    p = subprocess.run([sys.executable, "-c", "from pysim.main import cli; cli()", *args], cwd=d, env=env, capture_output=True, text=True, timeout=120)
    return p.returncode, p.stdout, p.stderr


def scenario(chk, pkgs, real, seed):
    rng = random.Random(seed)
    d = tree(chk, pkgs, real)
    pkgs = sorted(pkgs, key=lambda p: p["name"])
    ev = []
    rc, out, err = sim(d, "list")
    text = (out + "\n" + err).splitlines()
    listed = [x[2:].strip() for x in out.splitlines() if x.startswith("* ")]
    ev.append(dict(op="list", rc=rc, listed=listed, reports=sum(1 for x in text if x.strip() and not x.startswith("* ")), tail=err[-300:]))
    rc, out, err = sim(d, "run", "--help")
    cmds = [x.split()[0] for x in out.split("Commands:")[-1].splitlines() if x.startswith("  ") and x.split()] if "Commands:" in out else []
    ev.append(dict(op="help", rc=rc, listed=cmds))
    names = [p for p in pkgs]
    if len(names) > 4:
        names = rng.sample(names, 4)
    for p in names + [dict(name="unheard_of", kind="none")]:
        arg = rng.choice(["x7", "none", "longer-word"])
        usable = p["kind"] in USABLE and not p.get("real")
        rc, out, err = sim(d, "run", p["name"], *(["--help"] if p.get("real") else ["-v", arg] if usable else []))
        ran = [x.split() for x in out.splitlines() if x.startswith("RAN ")]
        if p.get("real"):
            ev.append(dict(op="run", name=p["name"], rc=rc, ran=[p["name"]] if "Options:" in out else [], arg="", got=""))
        else:
            ev.append(dict(op="run", name=p["name"], rc=rc, ran=[x[1] for x in ran], arg=arg, got=ran[0][3] if ran else "nothing"))
    shutil.rmtree(d, ignore_errors=True)
    return dict(pkgs=pkgs, ev=ev)


def c27(chk: Check):
    rng = random.Random(chk.seed * 31 + 27)
    chk.model_check("RegistryMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS SomeKinds = {\"command\", \"group\", \"no_cli\", \"function\", \"raises\", \"no_init\"}\n"
                    f"Most = {chk.n(4, 5)}\nINVARIANTS ListIsRunnable ListedExactly RunsExactly ReportsAll OnlyAsked\nPROPERTY Ends\n", "RegistryMC", workers=8)
    allkinds = list(KINDS) + ["plain_module", "text_file"]
    names = ["alpha", "beta", "a_b", "Zeta", "x9", "models", "run", "list", "cli", "main", "m1", "m10", "m2", "click_model", "omega", "two_part_name", "a__b", "_c_d_"]
    jobs = [([dict(name=n, kind="command", real=True) for n in ("pingpong", "rfid", "tag_time")], True)]
    jobs.append((jobs[0][0] + [dict(name="aaa", kind="raises"), dict(name="zzz", kind="command"), dict(name="q", kind="no_cli_run")], True))
    jobs += [([], False), ([dict(name=n, kind=k) for n, k in zip(names, USABLE)], False)]
    for k in allkinds:              # each kind of package beside usable ones, before, between and after them
        for place in ((rng.randrange(3),) if chk.quick else range(3)):
            ps = [dict(name=n, kind=rng.choice(USABLE)) for n in ("b_one", "d_two")]
            ps.append(dict(name=["a_it", "c_it", "e_it"][place], kind=k))
            jobs.append((ps, False))
    for _ in range(chk.n(12, 120)):
        ns = rng.sample(names, rng.randrange(1, 9))
        jobs.append(([dict(name=n, kind=rng.choice(allkinds) if rng.random() < .6 else "command") for n in ns], False))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        tr = list(ex.map(lambda j: scenario(chk, j[1][0], j[1][1], (chk.seed, j[0]).__repr__()), enumerate(jobs)))
    chk.sample(dict(trace=tr[-1]))
    chk.validate("RegistryTrace", tr)
