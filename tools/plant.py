#!/opt/venv/bin/python
"""plant.py FILE [ID ...]: validates planted bugs defined in tools/plants/FILE.py and writes them to /verif/seeded/<id>/.

Every bug is applied to a scratch copy of /repo; it is kept if the stable tests pass, the demo passes without and fails with it.
With CHECK=1 the registered check of the property is run against the patched copy as well and its verdict printed.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
S = os.environ.get("SCRATCH", "/tmp/plant")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(d, tree):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    r = subprocess.run(["bash", f"{d}/demo.sh"], cwd=tree, capture_output=True, text=True, timeout=300, env=env)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def main():
    name = sys.argv[1]
    spec = importlib.util.spec_from_file_location(name, os.path.join(V, "tools", "plants", name + ".py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    tree = f"{S}/tree"
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    sh(f"cp -a {os.environ.get("REPO", "/repo")} {tree}")
    for p in mod.PLANTS:
        if len(sys.argv) > 2 and p["id"] not in sys.argv[2:]:
            continue
        sh(f"git -C {tree} checkout -q -- . && git -C {tree} clean -fdq")
        d = f"{S}/{p['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        code = p["demo"]
        for helper in ("fakepg", "fakedb", "fakeduck"):
            if helper in code:
                shutil.copy(os.path.join(V, "tools", "plants", helper + ".py"), d)
        open(f"{d}/demo.py", "w").write(code.lstrip("\n"))
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds in this scenario\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                       'PYTHONPATH="$PWD" timeout 240 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        rc, out = demo(d, tree)
        if rc:
            print(f"{p['id']}: DEMO FAILS ON CLEAN TREE\n{out}")
            continue
        bad = False
        for file, old, new in p["edits"]:
            path = f"{tree}/{file}"
            text = open(path).read()
            if text.count(old) != 1:
                print(f"{p['id']}: pattern occurs {text.count(old)} times: {old[:80]!r}")
                bad = True
                break
            open(path, "w").write(text.replace(old, new))
        if bad:
            continue
        diff = sh(f"git -C {tree} diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        for file in {e[0] for e in p["edits"]}:
            base = sh(f"git -C {tree} show 97860d1:{file}").stdout.splitlines()
            for line in sh(f"git -C {tree} diff -- {file}").stdout.splitlines():
                if line.startswith("-") and not line.startswith("---") and line[1:] not in base:
                    print(f"{p['id']}: NOT AN ORIGINAL LINE: {line}")
        rc, out = demo(d, tree)
        if not rc:
            print(f"{p['id']}: DEMO PASSES WITH THE BUG\n{out}")
            continue
        t = sh(f"cd {tree} && PYTHONPATH={tree} PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 {PY} -m pytest tests -q -W ignore -p no:cacheprovider -p pytest_timeout"
               " --timeout=300 --continue-on-collection-errors 2>&1 | tail -3")
        verdict = ""
        if os.environ.get("CHECK"):
            env = dict(os.environ, POSTBOUND_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run([PY, "check.py", p["property"], "--tier", "quick"], cwd=V, capture_output=True, text=True, env=env)
            lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            verdict = f"CHECK rc={r.returncode} {lines[:1]} " + " ".join(r.stdout.splitlines()[:2])[:300]
        dst = f"{V}/seeded/{p['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(f"{V}/seeded", exist_ok=True)
        shutil.copytree(d, dst, ignore=shutil.ignore_patterns("__pycache__"))
        print(f"{p['id']} [{p['property']}]: ok; demo: {out.strip().splitlines()[-1][:110] if out.strip() else ''}; tests: {t.stdout.strip().splitlines()[-1]}; {verdict}", flush=True)
    shutil.rmtree(S, ignore_errors=True)


main()
