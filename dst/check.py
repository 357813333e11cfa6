#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--replay FILE] [--hashes N]"""
import os, sys, argparse, tempfile, shutil, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONIOENCODING": "utf-8"}


def relaunch():
    """own interpreter with a fixed environment and a private bytecode cache (never stale, never in /repo)"""
    tmp = tempfile.mkdtemp(prefix="dst-")
    env = dict(os.environ, **ENV)
    env.setdefault("PYTHONHASHSEED", "0")
    if env.get("DST_HASHSEED"):
        env["PYTHONHASHSEED"] = env["DST_HASHSEED"]
    env["PYTHONPYCACHEPREFIX"] = os.path.join(tmp, "pyc")
    env["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    env["DST_TMP"] = tmp
    env["DST_CWD"] = os.getcwd()
    env["TMPDIR"] = tmp
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    env["PYTHONPATH"] = os.environ.get("DST_REPO", "/repo")
    try:
        p = subprocess.run([sys.executable, "-s", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=os.path.dirname(HERE))
        return p.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--hashes", type=int)
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    import engine
    from forkrun import HarnessError
    import props
    prop = props.get(a.id)
    try:
        if a.replay:
            return engine.replay(prop, a.replay if os.path.isabs(a.replay) else os.path.join(os.environ["DST_CWD"], a.replay))
        if a.hashes:
            return engine.hashes(prop, a.seed, a.hashes, a.workers)
        return engine.check(prop, a.tier, a.seed, a.runs, a.workers)
    except HarnessError as e:
        print("HARNESS-ERROR (no verdict):", e, file=sys.stderr)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main() if os.environ.get("DST_TMP") else relaunch())
