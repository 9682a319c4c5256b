"""Runs the check of one property: all configurations, evidence, verdict."""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SINGD_REPO", "/repo")

FUNCS: set = set()


def _watch_functions():
    """Record which functions of the code under test are executed symbolically."""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, "symtorch")
    base = os.path.join(REPO, "singd") + os.sep

    def start(code, offset):
        if code.co_filename.startswith(base):
            FUNCS.add(f"{os.path.relpath(code.co_filename, REPO)}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def _setup():
    sys.dont_write_bytecode = True
    sys.path[:0] = [ROOT, REPO]
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    from symtorch import engine

    engine.install_math_patches()
    from symtorch import ctx, explore, poly, smt  # noqa: F401
    import singd
    import singd.optim.optimizer  # noqa: F401

    engine.install_number_patches(
        m for n, m in list(sys.modules.items()) if n.split(".")[0] == "singd"
    )
    _warm_up()
    where = os.path.dirname(os.path.abspath(singd.__file__))
    if where != os.path.join(REPO, "singd"):
        raise SystemExit(f"singd is imported from {where}, not from {REPO}")


def _warm_up():
    """Import what torch imports lazily, once, before forking."""
    import torch

    from symtorch import explore

    explore.engine_decompositions()

    def h(ctx, cfg):
        t = ctx.tensor("t", 2, 2)
        x = ctx.tensor("x", 2, 2)
        w = t.clone().requires_grad_(True)
        y = torch.nn.functional.linear(x, w)
        (y * t).sum().backward()
        ctx.eq("g", w.grad, w.grad)

    explore.explore("warm", h, {}, dict(seed=1, time=100))
    import torch._dynamo  # noqa: F401


def _job(mod, cfg, opts, path):
    """Executed in a forked child: explore one configuration."""
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    from symtorch import explore

    try:
        _watch_functions()
        h = mod.HARNESSES[cfg["h"]]
        o = dict(opts)
        o.update(getattr(mod, "OPTS", {}))
        o.update(cfg.get("opts", {}))
        if os.environ.get("SYM_DEBUG"):
            print("start", cfg, flush=True)
        r = explore.explore(mod.PROP, h, cfg, o)
        if r["status"] == "error" and r.get("kind") != "time":
            # an encoding gap: try to find out whether the code is broken here
            t = explore.triage(h, cfg, o)
            if t is not None:
                r.update(t)
    except MemoryError:
        r = dict(cfg=cfg, status="error", error="out of memory", wall=0)
    except BaseException as e:  # noqa: BLE001
        r = dict(cfg=cfg, status="error", error=f"{type(e).__name__}: {e}",
                 trace=traceback.format_exc(), wall=0)
    r["functions"] = sorted(FUNCS)
    with open(path + ".tmp", "wb") as f:
        pickle.dump(dict(r), f)
    os.rename(path + ".tmp", path)
    os._exit(0)


def run_jobs(mod, cfgs, opts, tmp, procs, deadline, known=()):
    """Run all configurations in forked processes, longest expected first."""
    ctx = mp.get_context("fork")
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get("cost", 1))
    pending = list(order)
    running = {}
    results = [None] * len(cfgs)
    stop = False
    while pending or running:
        while pending and len(running) < procs and not stop:
            i = pending.pop(0)
            left = deadline - time.time()
            if left < 5:
                results[i] = dict(cfg=cfgs[i], status="error", wall=0, kind="time",
                                  error="no time left for this configuration")
                continue
            o = dict(opts)
            o["time"] = min(o["time"], left - 3)
            p = ctx.Process(target=_job, args=(mod, cfgs[i], o, f"{tmp}/{i}"))
            p.start()
            running[i] = (p, time.time() + o["time"] + 40)
        if stop:
            for i in pending:
                results[i] = dict(cfg=cfgs[i], status="skipped", wall=0)
            pending = []
        for i, (p, end) in list(running.items()):
            p.join(0.005)
            if not p.is_alive():
                del running[i]
                try:
                    with open(f"{tmp}/{i}", "rb") as f:
                        results[i] = pickle.load(f)
                    os.remove(f"{tmp}/{i}")
                except OSError:
                    results[i] = dict(cfg=cfgs[i], status="error", wall=0,
                                      error=f"process ended with {p.exitcode}")
                r = results[i]
                if r["status"] == "violation" and which(known, r) is None:
                    stop = opts.get("stop_at_violation", True)
            elif time.time() > min(end, deadline + 30):
                p.kill()
                p.join()
                del running[i]
                results[i] = dict(cfg=cfgs[i], status="error", wall=0, kind="time",
                                  error="configuration did not finish in time")
        time.sleep(0.01)
    return results


def known_findings(prop):
    """Entries `known: property=<id> cfg=<json> match=<text>` of the findings file."""
    out = []
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("{"):
                    continue
                d = json.loads(line)
                if d.get("kind") == "known" and d["property"] == prop:
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def which(known, r):
    """Index of the recorded finding that explains a violation completely."""
    txt = _cfg_text(r["cfg"])
    for j, d in enumerate(known):
        if all(w in txt for w in d["cfg_contains"]) and all(
            any(m in b for m in d["match"]) for b in r["bad"]
        ):
            return j
    return None


def _cfg_text(cfg):
    return json.dumps({k: v for k, v in cfg.items() if k not in ("opts", "cost")},
                      default=str, sort_keys=True)


def replay(path):
    """Run a recorded counterexample on the real code, without the engine."""
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module(f"checks.{d['property'].lower()}")
    from symtorch import explore

    cfg = d["cfg"]
    if "cfg_index" in d:
        cs = mod.configs(d["tier"])
        for c in cs:
            if _cfg_text(c) == d["cfg_text"]:
                cfg = c
    c, e = explore.run_concrete(mod.HARNESSES[cfg["h"]], cfg, d["inputs"], d["seed"])
    bad = explore.mismatches(c)
    if isinstance(e, Exception):
        bad.insert(0, f"exception {type(e).__name__}: {e}")
        print(getattr(c, "trace", ""))
    for b in bad:
        print(b)
    print("REPRODUCED" if bad else "not reproduced")
    return 1 if bad else 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring of the configuration text")
    ap.add_argument("--procs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--all", action="store_true", help="do not stop at a violation")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    _setup()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop.upper()
    mod = importlib.import_module(f"checks.{prop.lower()}")
    cfgs = mod.configs(a.tier)
    if a.only:
        cfgs = [c for c in cfgs if all(w in _cfg_text(c) for w in a.only.split(","))]
    quick = a.tier == "quick"
    opts = dict(seed=seed, time=300 if quick else 1500, cross=not quick,
                validate=3 if quick else 8, stop_at_violation=not a.all)
    budget = 780 if quick else 6 * 3600
    import tempfile

    known = known_findings(prop)
    with tempfile.TemporaryDirectory(prefix="symtorch") as tmp:
        results = run_jobs(mod, cfgs, opts, tmp, a.procs, t0 + budget, known)

    viol, errors, hits = [], [], set()
    for i, r in enumerate(results):
        if r["status"] == "violation":
            k = which(known, r)
            if k is None:
                viol.append((i, r))
            else:
                hits.add(k)
        elif r["status"] == "error":
            errors.append((i, r))
        if a.v:
            print(f"{r['status']:10s} {r.get('wall', 0):6.1f}s paths={r.get('paths')} "
                  f"obl={r.get('obligations')} terms={r.get('terms')} "
                  f"val={r.get('validated')} {_cfg_text(r['cfg'])} "
                  f"{r.get('error', '')} {r.get('bad', '')}")
            if r.get("trace"):
                print(r["trace"])
            for n in r.get("notes", [])[:3]:
                print("   note:", n)
    for k in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")

    ev = evidence(mod, a, prop, seed, results, viol, errors, time.time() - t0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(
        f"{prop}: {len(cfgs)} configurations, "
        f"{sum(r.get('paths', 0) for r in results)} paths, "
        f"{ev['coverage']['obligations']} obligations, "
        f"{ev['coverage']['queries']['total']} queries, "
        f"{len(viol)} violations, {len(errors)} inconclusive, {time.time() - t0:.1f}s"
    )
    for i, r in errors[:8]:
        print(f"INCONCLUSIVE: {_cfg_text(r['cfg'])}: {r.get('error')}")
        if r.get("trace") and not a.v:
            print("\n".join(r["trace"].splitlines()[-6:]))
    if viol:
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        i, r = viol[0]
        path = os.path.join(d, f"{prop}.json")
        with open(path, "w") as f:
            json.dump(
                dict(property=prop, cfg=r["cfg"], cfg_text=_cfg_text(r["cfg"]),
                     cfg_index=i, tier=a.tier, seed=seed, inputs=r["env"],
                     mismatches=r["bad"], trace=r.get("trace", "")),
                f, indent=1, default=str,
            )
        for _, r in viol[:5]:
            print(f"  {_cfg_text(r['cfg'])}")
            for b in r["bad"][:4]:
                print(f"    {b}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        kinds = {}
        for i, c in enumerate(cfgs):
            kinds.setdefault(c["h"], []).append(results[i]["status"])
        if len(errors) * 4 > len(cfgs) or any("ok" not in v for v in kinds.values()):
            print("no verdict: too much of the stated bounds could not be decided")
            return 2
        print("held on everything decided; inconclusive configurations are listed in "
              "the evidence file")
    return 0


def evidence(mod, a, prop, seed, results, viol, errors, wall):
    ok = [r for r in results if r["status"] == "ok"]
    q = {k: sum(r.get("smt", {}).get(k, 0) for r in results)
         for k in ("queries", "unsat", "sat", "unknown", "cross")}
    q["total"] = q.pop("queries")
    q["cross_checked_with_cvc5"] = q.pop("cross")
    st = round(sum(r.get("smt", {}).get("time", 0.0) for r in results), 3)
    samples = []
    for r in ok[:: max(1, len(ok) // 6)][:8]:
        samples.append(dict(config=_cfg_text(r["cfg"]), paths=r["paths"],
                            symbolic_inputs=r["inputs"], obligations=r["obligations"],
                            nontrivial=r["nontrivial"], asserted=r["labels"][:12]))
    return dict(
        property=prop, tier=a.tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(r.get("paths", 0) for r in results),
            transitions=sum(r.get("arith", 0) for r in results),
            traces_validated_against_impl=sum(r.get("validated", 0) for r in results),
            samples=samples,
            explanation="states = feasible symbolic paths through the real code; "
            "transitions = ATen operator applications interpreted on symbolic terms; "
            "traces_validated = paths whose symbolic results were compared with a native "
            "run of the same code at concrete inputs of that path",
            configurations=len(results),
            configurations_decided=len(ok),
            obligations=sum(r.get("obligations", 0) for r in results),
            obligations_nontrivial=sum(r.get("nontrivial", 0) for r in results),
            paths_outside_assumptions=sum(r.get("discarded", 0) for r in results),
            queries=q,
            solver_seconds=st,
            functions_encoded=sorted({f for r in results for f in r.get("functions", [])}),
            operators_interpreted=sorted({o for r in results for o in r.get("ops", [])}),
            bounds=getattr(mod, "BOUNDS", ""),
            inconclusive=[dict(config=_cfg_text(r["cfg"]), reason=r.get("error"))
                          for _, r in errors],
            notes=sorted({n for r in results for n in r.get("notes", [])}),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "arithmetic over the reals: floating-point rounding is outside the claim",
            "CPU only; sizes and numbers of steps as listed in bounds",
        ],
        wall_s=round(wall, 2),
        violations=len(viol),
    )
