"""python3-vt -B -m vp.replay FILE: run one counterexample on the real code, on plain values."""

from __future__ import annotations

import json
import sys

from .check import setup_import


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    setup_import()
    from . import engine, registry

    registry.load(d["property"])
    task = next((t for tier in (d["tier"], "thorough", "quick") for t in registry.tasks(d["property"], tier)
                 if t.name == d["task"]), None)
    if task is None:
        print("no such task")
        return 2
    sys.setrecursionlimit(max(sys.getrecursionlimit(), task.opts.get("recursion", 1000)))
    for values in [*d.get("before", []), d["values"]]:  # "before": what the process did earlier, where that matters
        r = engine.run_concrete(task, dict(values))
        if r.violated:
            break
    print(f"{d['property']} {d['task']}: {'violated: ' + str(r.label) if r.violated else 'held'}")
    return 1 if r.violated else 0


if __name__ == "__main__":
    sys.exit(main())
