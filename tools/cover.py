#!/opt/venv/bin/python
"""cover.py PROPERTY OUT.json [check.py options]: lines of the code under test that the runs of a check executed."""
import json
import mmap
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa: E402

check.__file__ = os.path.abspath(__file__)
ROWS, COLS = 128, 16384
shared = mmap.mmap(-1, ROWS * COLS)
files: dict = {}


def main() -> int:
    if "DST_READY" not in os.environ:
        check.environment()
    out = sys.argv[2]
    sys.argv = [sys.argv[0], sys.argv[1], *sys.argv[3:]]
    root = os.path.realpath(check.REPO) + "/postbound/"
    for d, _, names in sorted(os.walk(root)):
        for n in sorted(names):
            if n.endswith(".py"):
                files[os.path.join(d, n)] = len(files)
    alias = {}

    def on_line(code, line):
        row = alias.get(code.co_filename)
        if row is None:
            row = alias[code.co_filename] = files.get(os.path.realpath(code.co_filename), -1)
        if row >= 0:
            shared[row * COLS + line] = 1
        return sys.monitoring.DISABLE

    def on_start(code, offset):
        if "/postbound/" in code.co_filename:
            sys.monitoring.set_local_events(5, code, sys.monitoring.events.LINE)
        return sys.monitoring.DISABLE

    sys.monitoring.use_tool_id(5, "cover")
    sys.monitoring.register_callback(5, sys.monitoring.events.LINE, on_line)
    sys.monitoring.register_callback(5, sys.monitoring.events.PY_START, on_start)
    from dst import runner
    explore = runner.explore

    def armed(*a, **k):
        sys.monitoring.set_events(5, sys.monitoring.events.PY_START)
        return explore(*a, **k)
    runner.explore = armed
    rc = check.main()
    res = {}
    for f, row in files.items():
        data = shared[row * COLS:(row + 1) * COLS]
        lines = [i for i, b in enumerate(data) if b]
        if lines:
            res[os.path.relpath(f, os.path.dirname(os.path.dirname(root)))] = lines
    with open(out, "w") as f:
        json.dump(res, f)
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
