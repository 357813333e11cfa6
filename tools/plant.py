#!/usr/bin/env python3
"""makes and verifies the planted bugs defined in tools/bugs/*.py; writes seeded/<id>/; runs the check of their property
usage: plant.py [--check] [--force] id... | all"""
import sys, os, json, shutil, subprocess, importlib.util, glob, textwrap, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "6c700ad"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, env=ENV, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def load():
    B = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs", "b*.py"))):
        s = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in B, b["id"]
            B[b["id"]] = b
    return B


IMPORT = r"""
import importlib, os, sys
sys.path.insert(0, os.getcwd())
for root, dirs, files in os.walk("aerokit"):
    for n in sorted(files):
        if n.endswith(".py"):
            m = os.path.join(root, n)[:-3].replace(os.sep, ".").replace(".__init__", "")
            mod = importlib.import_module(m)
            assert mod.__file__.startswith(os.getcwd()), mod.__file__
"""


def one(b, check=False, seeds=(1,)):
    d = "/tmp/sb/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/sb", exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                return "edit of %s: %d matches of %r" % (f, s.count(old), old[:60])
            open(p, "w", newline="").write(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        # removed lines must be the original repository's
        bl = {}
        orig = 0
        mine = 0
        cur = None
        ln = 0
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                cur = l[6:]
                bl[cur] = [x.split(" ")[0] for x in sh(["git", "blame", "-s", "HEAD", "--", cur], d).stdout.split("\n")]
            elif l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                if bl[cur][ln - 1].lstrip("^").startswith(BASE[:6]):
                    orig += 1
                else:
                    mine += 1
                ln += 1
            elif l.startswith(" "):
                ln += 1
        o = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(os.path.join(o, "patch.diff"), "w", newline="").write(diff)
        demo = textwrap.dedent(b["demo"]).lstrip()
        if "from pre import" in demo or "import pre" in demo:
            shutil.copy(os.path.join(V, "tools", "bugs", "pre.py"), o)
        open(os.path.join(o, "demo.py"), "w").write(demo)
        open(os.path.join(o, "demo.sh"), "w").write(
            '#!/bin/bash\n# run in the root of the repository: 0 if the property holds on this example\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
            'D=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONPATH="$PWD:$D" exec timeout 120 /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(o, "meta.json"), "w"), indent=1)
        msg = []
        if not orig:
            msg.append("NO ORIGINAL LINE CHANGED (mine %d)" % mine)
        elif mine:
            msg.append("(%d removed lines are mine)" % mine)
        r = sh([PY, "-W", "ignore", "-c", IMPORT], d)
        if r.returncode:
            msg.append("BUILD FAILS: " + r.stderr[-300:])
        r = sh([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "tests"], d)
        if "115 passed" not in r.stdout:
            msg.append("TESTS: " + r.stdout[-400:])
        env = {k: v for k, v in ENV.items() if not k.startswith("PYTHON")}
        r0 = sh(["bash", os.path.join(o, "demo.sh")], "/repo", env)
        if r0.returncode:
            msg.append("DEMO FAILS UNPATCHED: " + (r0.stdout + r0.stderr)[-500:])
        r1 = sh(["bash", os.path.join(o, "demo.sh")], d, env)
        if not r1.returncode:
            msg.append("DEMO PASSES PATCHED")
        if r1.returncode == 124:
            msg.append("(demo times out)")
        if check:
            for s in seeds:
                t = time.time()
                r = sh([PY, "dst/check.py", b["property"]], V, dict(ENV, DST_REPO=d, VERIF_SEED=str(s), VERIF_TIER="quick",
                       DST_EVIDENCE="/tmp/ev"), 900)
                v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
                msg.append("%s rc=%d %.0fs %s" % ("CAUGHT" if v and r.returncode == 1 else "*** MISSED", r.returncode, time.time() - t,
                           "" if v else r.stdout[-200:] + r.stderr[-300:]))
                if v:
                    i = r.stdout.split("\n").index(v[0])
                    msg.append("    " + " / ".join(r.stdout.split("\n")[max(0, i - 1):i + 3])[:330])
        return " ; ".join(msg) or "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    check = "--check" in sys.argv
    B = load()
    ids = [i for i in B if a == ["all"] or i in a or B[i]["property"] in a]
    par = 1 if check else 6
    with ThreadPoolExecutor(par) as ex:
        for i, r in zip(ids, ex.map(lambda i: one(B[i], check), ids)):
            print("%-28s %s  %s" % (i, B[i]["property"], r), flush=True)
