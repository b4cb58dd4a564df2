#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--runs N] [--jobs N] [--replay FILE] ..."""
import argparse
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("POSTBOUND_REPO", "/repo")


def build_shim() -> str | None:
    shim = os.path.join(VERIF, "build", "fsim.so")
    src = os.path.join(VERIF, "dst", "fsim.c")
    if not os.path.exists(src):
        return None
    if not os.path.exists(shim) or os.path.getmtime(shim) < os.path.getmtime(src):
        import subprocess
        os.makedirs(os.path.dirname(shim), exist_ok=True)
        tmp = f"{shim}.{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, shim)
    return shim


def environment() -> None:
    """Re-executes with the hash seed of this run, and with the thread pools of native libraries switched off."""
    want = dict(os.environ)
    seed = os.environ.get("VERIF_SEED", "1")
    hashseed = os.environ.get("DST_HASHSEED", str(int(seed) % 1000 if seed.lstrip("-").isdigit() else 0))
    want |= {"PYTHONHASHSEED": hashseed, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
             "ARROW_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "DST_READY": "1", "TZ": "UTC", "LC_ALL": "C.UTF-8",
             "POSTBOUND_SIM": "1", "MALLOC_ARENA_MAX": "2"}
    want.pop("DST_HASHSEED", None)
    shim = build_shim()
    if shim:
        want["LD_PRELOAD"] = shim
        want["FSIM_SO"] = shim
    os.execve(sys.executable, [sys.executable, "-B", os.path.abspath(__file__), *sys.argv[1:]], want)


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="compile the file system fault injector")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run a single run seed")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--hashes")
    ap.add_argument("--wall", type=float)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.setup:
        build_shim()
        return 0
    if args.replay and "DST_READY" not in os.environ:
        import json
        with open(args.replay) as f:
            os.environ["DST_HASHSEED"] = str(json.load(f).get("hashseed", "0"))
    if "DST_READY" not in os.environ:
        environment()
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    from dst import boot
    boot.boot()
    from dst import runner
    import props
    try:
        prop = props.load(args.property)
    except Exception as e:
        if runner.from_repo(e):
            print(f"importing the code under test failed: {e!r}")
        raise
    import postbound
    assert os.path.realpath(postbound.__file__).startswith(os.path.realpath(REPO) + os.sep), postbound.__file__
    if args.replay:
        return runner.replay(prop, args.replay, args.v)
    raw = os.environ.get("VERIF_SEED", "1")
    base = args.seed if args.seed is not None else (int(raw) if raw.lstrip("-").isdigit() else abs(hash(raw)))
    if args.one is not None:
        import json
        import random
        sc = json.loads(json.dumps(prop.scenario(random.Random(args.one), args.tier)))
        scratch = runner.scratch_dir(prop.id)
        pool = runner.Pool(prop, [e["signature"] for e in runner.load_known(prop.id)], 1, scratch)
        res = pool.one(args.one, sc)
        pool.close()
        log = res.pop("log", [])
        res.pop("trace", None)
        print(json.dumps(sc, indent=1))
        for line in log:
            print("   ", line)
        for k, v in res.items():
            print(f"{k}: {v}")
        return 0
    quick = args.tier != "thorough"
    runs = args.runs or (prop.quick_runs if quick else prop.thorough_runs)
    wall = args.wall or (240.0 if quick else 780.0)
    return runner.explore(prop, args.tier if args.tier in ("quick", "thorough") else "quick", base, runs, wall, args.jobs,
                          runner.load_known(prop.id), verbose=args.v, dump_hashes=args.hashes, keep_going=args.keep_going)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
