"""python3-vt -B -m vp.check PROPERTY [quick|thorough] [--only SUBSTRING]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken, with
a counterexample that was replayed against the real code.  Exit 2: no verdict
(the solvers disagree, or a third of the harnesses or more could not be decided;
fewer undecided ones are named in the output and in the evidence, whose
`exhaustive` is then false).
"""

from __future__ import annotations

import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


def setup_import(prop=None):
    sys.dont_write_bytecode = True
    # never trust bytecode left by an earlier build
    sys.pycache_prefix = tempfile.gettempdir() + f"/vp-nopyc-{os.getpid()}"
    sys.path.insert(0, REPO)
    if prop == "C25":
        from . import arrayhook

        arrayhook.install()
    import expression

    if not os.path.abspath(expression.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit(f"expression was imported from {expression.__file__}, not {REPO}")


FUNCS: set = set()


def watch_functions():
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, "vp")
    except ValueError:
        return
    pre = os.path.abspath(REPO) + "/expression/"

    def start(code, off):
        if code.co_filename.startswith(pre):
            FUNCS.add(f"{code.co_filename[len(pre):]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def run_task(task, deadline, tier, seed):
    from . import engine

    watch_functions()
    sys.setrecursionlimit(max(sys.getrecursionlimit(), task.opts.get("recursion", 1000)))
    import z3

    z3.set_param("smt.random_seed", seed)
    kw = dict(
        max_paths=task.opts.get("max_paths", 10**9),
        path_timeout=task.opts.get("path_timeout", 30.0),
        validations=task.opts.get("validations", 16),
        cross=task.opts.get("cross", 300) if tier == "thorough" else 0,
    )
    out = dict(name=task.name, err=None, cex=None, narrow=None, fallback=None)
    ex = engine.Explorer(task, deadline=deadline, **kw)
    err = ex.run()
    out.update(stats=ex.stats, complete=ex.complete, labels=ex.labels, witness=ex.witness,
               cross_fail=ex.cross_fail, err=err)
    cex = ex.cexs[0] if ex.cexs else None
    if cex is not None and not cex.violated:
        # the proxies are not faithful here: decide on narrowed, concrete inputs
        out["fallback"] = f"symbolic counterexample not reproduced ({cex.sym_label}; concrete: {cex.label})"
        cex = None
    elif cex is None and err:
        out["fallback"] = err
    if out["fallback"]:
        kw["cross"] = 0
        kw["max_paths"] = min(kw["max_paths"], 20000)
        nd = time.monotonic() + (25 if tier == "quick" else 300)
        ex2 = engine.Explorer(task, deadline=min(nd, deadline + 60), narrow=True, **kw)
        err2 = ex2.run()
        out["narrow"] = dict(stats=ex2.stats, complete=ex2.complete, err=err2)
        good = [c for c in ex2.cexs if c.violated]
        if good:
            cex = good[0]
        elif ex2.cexs:
            out["err"] = f"narrow mode: counterexample not reproduced ({ex2.cexs[0].sym_label})"
        elif err2:
            out["err"] = err2
        elif ex2.stats["paths"] == 0:
            out["err"] = "narrow mode: nothing explored"
        else:
            out["err"] = None
        if cex is not None:
            ex = ex2
    if cex is not None:
        out["cex"] = dict(label=cex.label, sym_label=cex.sym_label, table=cex.table, history=ex.history)
    out["functions"] = sorted(FUNCS)
    return out


def child(task, deadline, tier, seed, w):
    code = 0
    try:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        out = run_task(task, deadline, tier, seed)
    except BaseException as e:  # noqa: BLE001
        import traceback

        out = dict(name=task.name, err=f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", cex=None,
                   stats={}, complete=False, labels={}, witness=None, functions=[], fallback=None,
                   narrow=None, cross_fail=[])
    try:
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
    except BaseException:  # noqa: BLE001
        code = 3
    sys.stdout.flush()
    os._exit(code)


def is_known(known, res):
    return next((k for k in known if k["task"] in res["name"] and k["match"] in res["cex"]["label"]), None)


def run_all(tasks, tier, seed, jobs, budget, verbose, known=()):
    t_end = time.monotonic() + budget
    pending = list(tasks)
    running = {}
    results = []
    stop = False
    while pending or running:
        while pending and len(running) < jobs and not stop:
            t = pending.pop(0)
            limit = t.opts.get("limit", 240 if tier == "quick" else 1500)
            deadline = min(time.monotonic() + limit, max(t_end, time.monotonic() + 3))
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(t, deadline, tier, seed, w)
            os.close(w)
            running[r] = dict(pid=pid, task=t, buf=b"", kill=deadline + 120, t0=time.monotonic())
        if not running:
            break
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for r in rd:
            b = os.read(r, 1 << 20)
            d = running[r]
            if b:
                d["buf"] += b
                continue
            os.close(r)
            os.waitpid(d["pid"], 0)
            del running[r]
            try:
                res = pickle.loads(d["buf"])
            except Exception:  # noqa: BLE001
                res = lost(d["task"], "worker died")
            results.append(res)
            if verbose:
                st = res.get("stats", {})
                print(f"  {d['task'].name}: {time.monotonic() - d['t0']:.1f}s paths={st.get('paths')} "
                      f"queries={st.get('queries')} checks={st.get('checks')} complete={res.get('complete')} "
                      f"err={res.get('err')} cex={res.get('cex') and res['cex']['label']} "
                      f"{res.get('fallback') or ''}", flush=True)
            if res.get("cex") and not is_known(known, res):
                stop = not verbose
        now = time.monotonic()
        for r, d in list(running.items()):
            if now > d["kill"] or stop:
                try:
                    os.killpg(d["pid"], signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(d["pid"], signal.SIGKILL)
                os.waitpid(d["pid"], 0)
                os.close(r)
                del running[r]
                results.append(lost(d["task"], "stopped after a violation" if stop else "no answer in time",
                                    stopped=stop))
        if stop:
            break
    return results, len(pending)


def lost(task, why, stopped=False):
    return dict(name=task.name, err=None if stopped else why, cex=None, stats={}, complete=False, labels={},
                witness=None, functions=[], fallback=None, narrow=None, cross_fail=[], stopped=stopped)


def replay_in_fresh_process(path):
    r = subprocess.run([sys.executable, "-B", "-m", "vp.replay", path], cwd=ROOT, capture_output=True, text=True,
                       timeout=120, env=dict(os.environ, VP_REPO=REPO))
    return r.returncode, r.stdout[-800:] + r.stderr[-800:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = next((a[7:] for a in sys.argv if a.startswith("--only=")), None)
    verbose = "--verbose" in sys.argv
    jobs = int(os.environ.get("VP_JOBS", str(os.cpu_count() or 4)))
    t0 = time.monotonic()
    setup_import(prop)
    from . import engine, registry

    try:
        registry.load(prop)
    except Exception as e:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        print(f"no verdict: cannot load the harnesses of {prop}: {e}")
        return 2
    tasks = registry.tasks(prop, tier)
    if only:
        tasks = [t for t in tasks if only in t.name]
    tasks.sort(key=lambda t: -t.opts.get("cost", 1))
    budget = 600 if tier == "quick" else 5400
    known = known_findings(prop)
    results, skipped = run_all(tasks, tier, seed, jobs, budget, verbose, known)

    viol = []
    for r in results:
        if r["cex"]:
            d = os.path.join(ROOT, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            safe = "".join(c if c.isalnum() else "_" for c in r["name"])[:80]
            path = os.path.join(d, f"{prop}-{safe}.json")
            with open(path, "w") as f:
                found = dict(property=prop, tier=tier, task=r["name"], label=r["cex"]["label"],
                             symbolic_label=r["cex"]["sym_label"], values=r["cex"]["table"])
                json.dump(found, f, indent=1)
            rc, txt = replay_in_fresh_process(path)
            if rc == 0 and r["cex"]["history"]:
                # held on its own: does it fail after the runs that came before it, on plain values too?
                with open(path, "w") as f:
                    json.dump(dict(found, before=r["cex"]["history"]), f, indent=1)
                rc, txt = replay_in_fresh_process(path)
            if rc == 1:
                viol.append((r, path))
            else:
                r["err"] = f"counterexample not reproduced in a fresh process: {r['cex']['label']} / {txt}"
    new = []
    for r, path in viol:
        k = is_known(known, r)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            new.append((r, path))
    errs = [r for r in results if r["err"]]
    wall = time.monotonic() - t0
    write_evidence(prop, tier, seed, results, skipped, new, wall, only)
    st = totals(results)
    print(f"{prop} {tier}: {len(results)} harnesses, {st['paths']} paths, {st['queries']} queries "
          f"({st['solver_s']:.1f} s in the solver), {st['checks']} assertions, {wall:.1f} s")
    for r in results:
        if r["fallback"]:
            print(f"  note: {r['name']}: narrowed inputs used: {r['fallback']}")
        if not r["complete"] and not r["cex"] and not r.get("stopped"):
            print(f"  note: {r['name']}: exploration not complete within its budget")
        if r["cross_fail"]:
            print(f"  solvers disagree in {r['name']}: {r['cross_fail'][:2]}")
    for r, path in new:
        print(f"  {r['name']}: {r['cex']['label']}")
        print(f"VIOLATION property={prop} replay={path}")
    if new:
        return 1
    for r in errs:
        print(f"  not decided: {r['name']}: {r['err']}")
    if 3 * len(errs) >= len(tasks) or any(r["cross_fail"] for r in results):
        print("no verdict")
        return 2
    return 0


def totals(results):
    t = dict(paths=0, queries=0, solver_s=0.0, checks=0, forks=0, facts=0, final_queries=0, trivially_true=0, sat=0,
             unsat=0, unknown=0, pruned=0, validated=0, cross_queries=0, cross_unknown=0)
    for r in results:
        for s in (r.get("stats"), (r.get("narrow") or {}).get("stats")):
            for k in t:
                t[k] += (s or {}).get(k, 0)
    return t


def known_findings(prop):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def write_evidence(prop, tier, seed, results, skipped, new, wall, only):
    from . import registry

    t = totals(results)
    funcs = sorted({f for r in results for f in r["functions"]})
    samples = [dict(harness=r["name"], values=r["witness"]) for r in results if r["witness"]][:5]
    mod = sys.modules.get(f"vp.h.{prop.lower()}")
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=t["forks"] + t["facts"] + t["paths"],
            transitions=t["forks"] * 2 + t["facts"],
            traces_validated_against_impl=t["validated"],
            samples=samples,
            explanation=(
                "Bounded symbolic model checking: the real functions are run by CPython on z3 terms; states are "
                "symbolic execution nodes, transitions their branches; every path ends in a query "
                "(path condition and not assertions), discharged by z3 (`unsat`) or by simplification. "
                "traces_validated_against_impl: models of passing paths replayed on plain values."
            ),
            paths=t["paths"],
            pruned_paths=t["pruned"],
            assertions=t["checks"],
            queries=t["queries"],
            queries_sat=t["sat"],
            queries_unsat=t["unsat"],
            queries_unknown=t["unknown"],
            final_queries=t["final_queries"],
            paths_discharged_by_simplification=t["trivially_true"],
            solver_s=round(t["solver_s"], 3),
            cross_checked_with_cvc5=t["cross_queries"],
            cvc5_unknown=t["cross_unknown"],
            functions_encoded=funcs,
            bounds=getattr(mod, "BOUNDS", "") if mod else "",
            outside=getattr(mod, "OUTSIDE", "") if mod else "",
            harnesses=[
                dict(name=r["name"], complete=r["complete"], fallback=r["fallback"], error=r["err"],
                     paths=r["stats"].get("paths"), queries=r["stats"].get("queries"),
                     wall_s=round(r["stats"].get("wall_s", 0), 2))
                for r in results
            ],
            not_run=skipped,
            exhaustive=all(r["complete"] and not r["err"] for r in results) and not skipped and not only,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        wall_s=round(wall, 3),
        violations=len(new),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
