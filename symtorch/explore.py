"""Path exploration, solver queries, replay and encoder validation."""

from __future__ import annotations

import json
import math
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import torch

from symtorch import ctx as C
from symtorch import engine as E
from symtorch import poly as P
from symtorch import smt
from symtorch.poly import NotSupported, Poly

z3 = smt.z3


class Infeasible(BaseException):
    pass


class TimeUp(BaseException):
    pass


class Env(dict):
    """Lazy random assignment of the inputs."""

    def __init__(self, specs, seed, scale):
        super().__init__()
        self.specs, self.seed, self.scale = specs, seed, scale

    def __missing__(self, name):
        sp = self.specs.get(name, (None, None, False, False, None))
        sp = tuple(sp) + (False, None)[len(sp) - 3 :] if len(sp) < 5 else sp
        v = C.default_sample(C._rng(self.seed, name), *sp, self.scale)
        self[name] = v
        return v


SCALES = [1.0, 1.0, 1.0, 1.0, 0.25, 4.0, 1.0, 16.0, 0.0625, 1.0, 256.0, 1.0]


class Path:
    """Decisions of one symbolic execution."""

    def __init__(self, prefix, opts):
        self.prefix = list(prefix)
        self.trail = []
        self.forks = []
        self.conds = []  # (rel, poly, truth)
        self.memo = {}
        self.sub = {}
        self.ex = smt.Exporter()
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("branch_ms", 2000))
        self.ctx = None
        self.full, self.full_n = {}, 0
        self.maxima = {}
        self.samples = None
        self.opts = opts
        self.seed = opts["seed"]
        self.maxdec = opts.get("max_decisions", 400)

    # -- samples -------------------------------------------------------------
    def _init_samples(self):
        n = self.opts.get("samples", 24)
        self.samples = [
            (Env(self.ctx.specs, f"{self.seed}.{i}", SCALES[i % len(SCALES)]))
            for i in range(n)
        ]

    def _holds(self, env, rel, p, truth):
        try:
            v = P.evaluate(p, env, {})
        except (ZeroDivisionError, OverflowError, ValueError):
            return False
        if v != v:
            return False
        tol = 1e-9 * (1 + sum(abs(c) for c in p.t.values()) / p.d)
        if rel == "==":
            return (abs(v) <= tol) == truth
        if rel == "<":
            return v < -tol if truth else v >= tol if v != 0 else True
        return v <= 0 if truth else v > tol

    # -- decisions -----------------------------------------------------------
    def decide(self, rel, p):
        p = self.resolve(p)
        if p.is_const():
            c = p.const_value()
            return {"<": c < 0, "<=": c <= 0, "==": c == 0}[rel]
        if rel == "==" and p.t[max(p.t)] < 0:
            p = -p
        key = (rel, p.key())
        if key in self.memo:
            return self.memo[key]
        if rel == "<" and (k2 := ("<=", (-p).key())) in self.memo:
            return not self.memo[k2]
        if rel == "<=" and (k2 := ("<", (-p).key())) in self.memo:
            return not self.memo[k2]
        if time.time() > self.opts["deadline"]:
            raise TimeUp()
        if self.samples is None:
            self._init_samples()
        i = len(self.trail)
        if i >= self.maxdec:
            raise P.TooBig(f"more than {self.maxdec} decisions on a path")
        for c in self.ex.closure([p]):
            self.solver.add(c)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            t = f = None
            for env in self.samples:
                if t is None and self._holds(env, rel, p, True):
                    t = True
                if f is None and self._holds(env, rel, p, False):
                    f = True
                if t and f:
                    break
            if t is None:
                t = self._feasible(rel, p, True)
            if f is None:
                f = self._feasible(rel, p, False)
            if t and f:
                val = not (rel == "==")
                self.forks.append(self.trail + [not val])
            elif t or f:
                val = bool(t)
            else:
                raise Infeasible()
        self.trail.append(val)
        self.memo[key] = val
        self.conds.append((rel, p, val))
        self.solver.add(smt.cond(self.ex, rel, p, val))
        if rel == "==" and val:
            self._substitute(p)
        elif rel != "==":
            self._clip(p, val)
        self.samples = [
            e
            for e in self.samples
            if all(self._holds(e, r, q, v) for r, q, v in self.conds)
        ]
        return val

    def resolve(self, p):
        """Rewrite a term with the equalities known on this path."""
        if not self.sub and not self.maxima:
            return p
        if self.full_n == 0:
            self.full = {**self.maxima, **self.sub}
        if self.full_n < len(P.R.order):
            self.full_n = P.deepen(self.full, self.full_n)
        return P.substitute(p, self.full)

    def _feasible(self, rel, p, truth):
        self.solver.push()
        self.solver.add(smt.cond(self.ex, rel, p, truth))
        t0 = time.time()
        r = str(self.solver.check())
        smt.STATS.queries += 1
        setattr(smt.STATS, r, getattr(smt.STATS, r) + 1)
        smt.STATS.time += time.time() - t0
        self.solver.pop()
        return r != "unsat"

    def _clip(self, p, truth):
        """Simplify max(M, c) once the path has compared the maximum M with c."""
        if not 1 <= len(p.t) <= 2 or (len(p.t) == 2 and 1 not in p.t):
            return
        (k,) = [k for k in p.t if k != 1] or (None,)
        v = P.R.by_prime.get(k)
        if v is None or v.kind != "max":
            return
        c = Fraction(-p.t.get(1, 0), p.t[k])
        below = (p.t[k] > 0) == truth
        w = P.single_var(P.maximum([*v.defn, Poly.const(c)]))
        if w is not None and w is not v:
            self.maxima[w.prime] = Poly.const(c) if below else Poly.of_var(v)
            self.full_n = 0

    def _substitute(self, p):
        """Turn the equality p == 0 into a substitution if it can be solved."""
        target = None
        for k in sorted(p.t, reverse=True):
            v = P.R.by_prime.get(k)
            if v is None or v.kind != "input":
                continue
            if any(k2 != k and k2 % k == 0 for k2 in p.t):
                continue
            target = (k, -(p + Poly({k: -p.t[k]}, p.d)).scale(p.d, p.t[k]))
            break
        if target is None and len(p.t) == 2 and 1 in p.t:
            # a * x^n + b == 0 with x >= 0
            (k,) = [k for k in p.t if k != 1]
            fac = P.mono_factor(k)
            c = Fraction(-p.t[1], p.t[k])
            if len(fac) == 1 and c > 0:
                prime, n = fac[0]
                v = P.R.by_prime[prime]
                if v.kind == "input" and v.lo is not None and v.lo >= 0:
                    if c == 1:
                        target = (prime, P.ONE)
                    elif n == 2:
                        target = (prime, P.sqrt_rational(c))
        if target is None:
            return
        k, val = target
        if k not in {pr for kk in val.t for pr, _ in P.mono_factor(kk)}:
            val = P.substitute(val, self.sub)
            self.sub = {a: P.substitute(b, {k: val}) for a, b in self.sub.items()}
            self.sub[k] = val
            self.full_n = 0
            name = P.R.by_prime[k].name
            for e in self.samples:
                try:
                    e[name] = P.evaluate(val, e, {})
                except (ZeroDivisionError, OverflowError, ValueError):
                    e[name] = float("nan")

    # -- witnesses -----------------------------------------------------------
    def satisfies(self, env):
        return all(self._holds(env, r, q, v) for r, q, v in self.conds)

    def more_samples(self, n, base=1000):
        out = []
        for i in range(n):
            e = Env(self.ctx.specs, f"{self.seed}.{base + i}", SCALES[i % len(SCALES)])
            for k, val in self.sub.items():
                try:
                    e[P.R.by_prime[k].name] = P.evaluate(val, e, {})
                except (ZeroDivisionError, OverflowError, ValueError):
                    e[P.R.by_prime[k].name] = float("nan")
            if self.satisfies(e):
                out.append(e)
        return out

    def impossible(self, seconds):
        """Whether a solver shows that no inputs take this path."""
        ex = smt.Exporter()
        cons = ex.closure([q for _, q, _ in self.conds])
        cons += [smt.cond(ex, *c) for c in self.conds]
        for logic, share in ((None, 0.25), ("QF_NRA", 0.25), ("cvc5", 0.5)):
            if logic == "cvc5":
                r = smt.cross_check(cons, int(seconds * share))
            else:
                r = smt.check(cons, int(1000 * seconds * share), logic=logic)[0]
            if r in ("unsat", "sat"):
                return r == "unsat"
        return False

    def witness(self, extra=(), extra_polys=(), tries=6, timeout_ms=4000):
        """Concrete inputs on this path (that satisfy extra constraints), or None."""
        ex = smt.Exporter()
        polys = [q for _, q, _ in self.conds] + list(extra_polys)
        cons = ex.closure(polys) + [smt.cond(ex, *c) for c in self.conds]
        cons += [f(ex) for f in extra]
        names = sorted(
            {
                P.R.by_prime[p].name
                for p in ex.vars
                if P.R.by_prime[p].kind == "input"
            }
        )
        rng = C._rng(self.seed, "witness")
        for attempt in range(tries):
            env = Env(self.ctx.specs, f"{self.seed}.w{attempt}", SCALES[attempt % len(SCALES)])
            free = set(names)
            if attempt < tries - 2 and len(names) > 2:
                free = set(rng.sample(names, max(1, min(len(names), 2 + attempt))))
            elif attempt == tries - 2 and len(names) > 6:
                free = set(rng.sample(names, len(names) // 2))
            fixed = []
            for n in names:
                if n not in free:
                    v = P.R.by_name[n]
                    if v.prime in self.sub:
                        continue
                    x = Fraction(env[n])
                    fixed.append(
                        ex.var(v.prime) == z3.Q(x.numerator, x.denominator)
                    )
            r, m = smt.check(cons + fixed, timeout_ms, want_model=True)
            if r == "sat":
                for n in names:
                    v = P.R.by_name[n]
                    z = ex.var(v.prime)
                    val = m.eval(z, model_completion=False)
                    try:
                        env[n] = _z3_float(val)
                    except ValueError:
                        pass
                return env
            if r == "unsat" and len(free) == len(names):
                return None
        return None


def _z3_float(v):
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    if z3.is_to_real(v):
        return _z3_float(v.arg(0))
    if z3.is_int_value(v):
        return float(v.as_long())
    raise ValueError(str(v))


# ----------------------------------------------------------------------------
# concrete runs
# ----------------------------------------------------------------------------


def run_concrete(harness, cfg, env, seed):
    """Run a harness on numbers. Returns (ctx, exception or None)."""
    P.reset()
    E.reset_tables()
    E.set_decider(None)
    c = C.ConcCtx(env, seed)
    torch.manual_seed(0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            harness(c, cfg)
        except C.HarnessAssume:
            return c, "assume"
        except Exception as e:  # noqa: BLE001
            c.trace = traceback.format_exc()
            return c, e
    return c, None


def mismatches(c, proved=False):
    """Failed equalities of a concrete run.

    If the equalities are proved for exact arithmetic, then rounding errors of half
    precision numbers (which cancellation may amplify) only count if they are gross.
    """
    bad = []
    for label, a, e, tol in c.records:
        a = np.asarray(a, dtype=np.float64)
        e = np.asarray(e, dtype=np.float64)
        if a.size == 0:
            continue
        s = max(1e-3, float(np.nanmax(np.abs(e))) if np.isfinite(e).any() else 1.0)
        d = np.abs(a - e)
        lim = s + 0.1 if tol > 0.02 and proved else tol * s
        if not (d <= lim).all():
            i = np.unravel_index(int(np.argmax(np.where(d == d, d, np.inf))), d.shape)
            bad.append(
                f"{label}{list(map(int, i))}: got {a[i]!r}, expected {e[i]!r}"
            )
    for label, ok, info in c.checks:
        if not ok:
            bad.append(f"{label}: {info}")
    return bad


# ----------------------------------------------------------------------------
# exploration of one configuration
# ----------------------------------------------------------------------------


class Result(dict):
    pass


def engine_decompositions():
    return E._decompositions()


def triage(harness, cfg, opts, points=6):
    """Outcome of a configuration whose encoding failed: is the code itself broken?

    Never turns an undecided configuration into a success; a counterexample found here
    was executed on the real code.
    """
    for k in range(points):
        c, e = run_concrete(harness, cfg, {}, f"{opts['seed']}.t{k}")
        if e == "assume":
            continue
        bad = [f"exception {type(e).__name__}: {e}"] if isinstance(e, Exception) else (
            mismatches(c, proved=True))
        if bad:
            return _violation("", cfg, c, bad, getattr(c, "trace", ""))
    return None


def explore(prop, harness, cfg, opts):
    """Decide all obligations of a harness for one configuration.

    Returns a dictionary with `status` in {ok, violation, error}.
    """
    t0 = time.time()
    opts = dict(opts)
    opts["deadline"] = t0 + opts.get("time", 240)
    smt.STATS = smt.Stats()
    res = Result(
        cfg=cfg, status="ok", paths=0, obligations=0, nontrivial=0, discarded=0,
        validated=0, ops=set(), arith=0, terms=0, inputs=0, notes=[], labels=set(),
    )
    todo = [[]]
    try:
        while todo:
            if res["paths"] >= opts.get("max_paths", 512):
                raise P.TooBig(f"more than {opts.get('max_paths', 512)} paths")
            prefix = todo.pop()
            st = _one_path(prop, harness, cfg, opts, prefix, res, todo)
            if st is not None:
                res.update(st)
                break
    except TimeUp:
        res.update(status="error", error="time limit of the configuration exceeded")
    except (NotSupported, P.TooBig) as e:
        res.update(status="error", error=f"{type(e).__name__}: {e}",
                   trace=traceback.format_exc())
    except Exception as e:  # noqa: BLE001
        res.update(status="error", error=f"internal {type(e).__name__}: {e}",
                   trace=traceback.format_exc())
    if res["status"] == "ok" and res["obligations"] == 0 and not opts.get("allow_empty"):
        res.update(status="error", error="vacuous: no path reached an assertion")
    res["wall"] = time.time() - t0
    res["smt"] = dict(smt.STATS.__dict__)
    res["ops"] = sorted(res["ops"])
    res["labels"] = sorted(res["labels"])
    return res


def _one_path(prop, harness, cfg, opts, prefix, res, todo):
    P.reset()
    T = E.reset_tables()
    path = Path(prefix, opts)
    c = C.SymCtx(path)
    path.ctx = c
    E.set_decider(path.decide)
    torch.manual_seed(0)
    exc = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if opts.get("own_modes"):
                harness(c, cfg)
            else:
                with c.run():
                    harness(c, cfg)
        except C.HarnessAssume:
            res["discarded"] += 1
            todo.extend(path.forks)
            return None
        except Infeasible:
            res["discarded"] += 1
            todo.extend(path.forks)
            return None
        except (NotSupported, P.TooBig):
            raise
        except Exception as e:  # noqa: BLE001
            exc = e
            exc_trace = traceback.format_exc()
        finally:
            E.set_decider(None)
    todo.extend(path.forks)
    res["paths"] += 1
    res["ops"] |= T.opnames
    res["arith"] += T.stats["arith"]
    res["inputs"] = max(res["inputs"], len(c.specs))
    if path.samples is None:
        path._init_samples()

    if exc is not None:
        env = _some_env(path)
        if env is None:
            r = path.solver.check()
            if str(r) == "unsat":
                res["discarded"] += 1
                return None
            return dict(status="error", error=f"exception without witness: {exc!r}",
                        trace=exc_trace)
        msg = f"exception {type(exc).__name__}: {exc}"
        cc, ce = run_concrete(harness, cfg, env, opts["seed"])
        if isinstance(ce, Exception):
            return _violation(prop, cfg, cc, [f"exception {type(ce).__name__}: {ce}"],
                              getattr(cc, "trace", ""))
        bad = mismatches(cc)
        if bad:
            return _violation(prop, cfg, cc, bad)
        return dict(status="error", error=f"{msg} (not reproduced)", trace=exc_trace)

    failed_checks = [k for k in c.checks if not k[1]]
    diff = []
    ex = smt.Exporter()
    disj = []
    big = {}
    nterms = 0
    for label, a, e, tol in c.records:
        res["labels"].add(label.split("#")[0])
        for i in np.ndindex(*a.shape):
            x, y = P.lift(a[i]), P.lift(e[i])
            res["obligations"] += 1
            if path.sub or path.maxima:
                x, y = path.resolve(x), path.resolve(y)
            if x.same(y):
                nterms += len(x.t)
                if len(x.t) > 0 and not x.is_const():
                    res["nontrivial"] += 1
                if nterms < opts.get("smt_terms", 40000):
                    zx, zy = ex.poly(x), ex.poly(y)
                else:  # shared name for a shared normal form
                    k = x.key()
                    zx = big.get(k)
                    if zx is None:
                        zx = big[k] = z3.Real(f"t!{len(big)}")
                    zy = big[y.key()]
                disj.append(zx != zy)
            else:
                res["nontrivial"] += 1
                diff.append((label, i, x, y, tol))
    res["obligations"] += len(c.checks)
    res["labels"] |= {k[0].split("#")[0] for k in c.checks}
    res["terms"] += nterms
    if disj:
        r, _ = smt.check([z3.Or(*disj)], 30000)
        if r != "unsat":
            return dict(status="error", error=f"normal form query: {r}")
    if failed_checks:
        env = _some_env(path)
        if env is None:
            if path.impossible(min(60, max(5, opts["deadline"] - time.time() - 5))):
                res["discarded"] += 1
                return None
            return dict(status="error", error=f"no witness for {failed_checks[0]}")
        cc, ce = run_concrete(harness, cfg, env, opts["seed"])
        bad = [f"exception {type(ce).__name__}: {ce}"] if isinstance(ce, Exception) else mismatches(cc)
        if bad:
            return _violation(prop, cfg, cc, bad)
        return dict(status="error", error=f"not reproduced: {failed_checks[0]}")
    if diff:
        st = _decide_diff(prop, harness, cfg, opts, path, c, diff, res)
        if st is not None:
            return st
        # registry was not reset: continue with validation
    # encoder validation: compare with the real code at a point of this path
    if res["validated"] < opts.get("validate", 6) or not path.conds:
        env = _some_env(path, cheap=True)
        if env is not None:
            if opts.get("cross") and (disj or diff):
                pass
            vals = []
            for label, a, e, tol in c.records:
                memo = {}
                v = np.empty(a.shape)
                for i in np.ndindex(*a.shape):
                    try:
                        v[i] = P.evaluate(P.lift(a[i]), env, memo)
                    except (ZeroDivisionError, OverflowError, ValueError):
                        v[i] = math.nan
                vals.append(v)
            env2 = dict(env)
            cc, ce = run_concrete(harness, cfg, env2, opts["seed"])
            if ce == "assume":
                return None
            if isinstance(ce, Exception):
                return _violation(
                    prop, cfg, cc, [f"exception {type(ce).__name__}: {ce}"],
                    getattr(cc, "trace", ""),
                )
            bad = mismatches(cc, proved=True)
            if bad:
                return _violation(prop, cfg, cc, bad)
            if len(cc.records) != len(vals):
                return dict(status="error", error="validation: different records")
            for (label, a, e, tol), v in zip(cc.records, vals):
                a = np.asarray(a, dtype=np.float64)
                if a.size == 0:
                    continue
                s = max(1e-3, float(np.abs(a).max()))
                lim = s + 0.1 if tol > 0.02 else 2 * tol * s
                if not (np.abs(a - v) <= lim).all():
                    i = np.unravel_index(int(np.argmax(np.abs(a - v))), a.shape)
                    return dict(
                        status="error",
                        error=f"encoder validation failed for {label}{i}: "
                        f"real {a[i]} encoded {v[i]}",
                    )
            res["validated"] += 1
    return None


def _some_env(path, cheap=False):
    if path.samples:
        return path.samples[0]
    s = path.more_samples(30)
    if s:
        return s[0]
    try:
        w = path.witness(tries=3 if cheap else 6, timeout_ms=1500 if cheap else 5000)
    except (OverflowError, ValueError):
        return None
    if w is not None and path.satisfies(w):
        return w
    return None if cheap else w


def _violation(prop, cfg, cc, bad, trace=""):
    return dict(
        status="violation", bad=bad[:5], env={k: v for k, v in cc.used.items()},
        trace=trace,
    )


def _decide_diff(prop, harness, cfg, opts, path, c, diff, res):
    """Obligations whose normal forms differ: solver decides, replay confirms."""
    # 1) candidate points on this path
    cands = list(path.samples[:6]) + path.more_samples(12, base=5000)
    confirmed = None
    tried = []
    snapshot = (P.R, E.T)
    for env in cands:
        hit = None
        memo = {}
        for label, i, x, y, tol in diff:
            try:
                vx, vy = P.evaluate(x, env, memo), P.evaluate(y, env, memo)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            if abs(vx - vy) > 1e-9 * (1 + abs(vx) + abs(vy)):
                rel = abs(vx - vy) / max(1e-3, abs(vy))
                if hit is None or rel > hit[0]:
                    hit = (rel, label, i, x, y)
        if hit:
            tried.append((hit, env))
    tried.sort(key=lambda t: -t[0][0])
    for hit, env in tried[:4]:
        # the solver confirms the disequality at this point
        ex = smt.Exporter()
        x, y = hit[3], hit[4]
        cons = ex.closure([x, y]) + [ex.poly(x) != ex.poly(y)]
        for p in list(ex.vars):
            v = P.R.by_prime[p]
            if v.kind == "input":
                q = Fraction(env[v.name])
                cons.append(ex.var(p) == z3.Q(q.numerator, q.denominator))
        r, _ = smt.check(cons, 10000)
        if r == "unsat":
            continue
        R, T = snapshot
        e2 = dict(env)
        cc, ce = run_concrete(harness, cfg, e2, opts["seed"])
        P.R, E.T = R, T
        if ce == "assume":
            continue
        bad = [f"exception {type(ce).__name__}: {ce}"] if isinstance(ce, Exception) else mismatches(cc)
        if bad:
            return _violation(prop, cfg, cc, bad)
        confirmed = (hit, env)
    # 2) ask the solver over all values of this path
    if any(v.kind == "max" for d in diff for p in (d[2], d[3]) for v in p.variables()):
        # first with fewer definitions: unsat is conclusive
        ex = smt.Exporter()
        conds = [q for _, q, _ in path.conds]
        skip = ("abs", "sqrt", "inv", "uf")
        cons = ex.closure(conds + [p for d in diff for p in (d[2], d[3])], skip)
        cons += [smt.cond(ex, *k) for k in path.conds]
        neq = z3.Or(*[ex.poly(x) != ex.poly(y) for _, _, x, y, _ in diff])
        r, _ = smt.check(cons + [neq], opts.get("solve_ms", 20000))
        if r == "unsat":
            return None
    ex = smt.Exporter()
    conds = [q for _, q, _ in path.conds]
    cons = ex.closure(conds + [p for d in diff for p in (d[2], d[3])])
    cons += [smt.cond(ex, *k) for k in path.conds]
    neq = z3.Or(*[ex.poly(x) != ex.poly(y) for _, _, x, y, _ in diff])
    # quick attempt in several theories
    r, m = smt.check(cons + [neq], opts.get("solve_ms", 20000), want_model=True)
    if r == "unsat":
        if opts.get("cross"):
            k = smt.cross_check(cons + [neq])
            if k == "sat":
                return dict(status="error", error="cvc5 disagrees with z3")
        return None
    if r == "sat":
        env = Env(c.specs, f"{path.seed}.m", 1.0)
        for p in ex.vars:
            v = P.R.by_prime[p]
            if v.kind == "input":
                try:
                    env[v.name] = _z3_float(m.eval(ex.var(p), model_completion=True))
                except ValueError:
                    pass
        R, T = snapshot
        cc, ce = run_concrete(harness, cfg, dict(env), opts["seed"])
        P.R, E.T = R, T
        bad = [f"exception {type(ce).__name__}: {ce}"] if isinstance(ce, Exception) else (
            mismatches(cc) if ce is None else [])
        if bad:
            return _violation(prop, cfg, cc, bad)
    # 3) a solver model with a difference beyond the replay tolerance
    for label, i, x, y, tol in diff[:6]:
        d = x - y
        env = None
        try:
            env = path.witness(
                extra=[lambda e, d=d, y=y: z3.Or(
                    e.poly(d) > z3.Q(1, 4) + z3.Q(1, 20) * _zabs(e.poly(y)),
                    e.poly(d) < -z3.Q(1, 4) - z3.Q(1, 20) * _zabs(e.poly(y)))],
                extra_polys=[d, y], timeout_ms=6000,
            )
        except (OverflowError, ValueError):
            env = None
        if env is None:
            continue
        R, T = snapshot
        cc, ce = run_concrete(harness, cfg, dict(env), opts["seed"])
        P.R, E.T = R, T
        bad = [f"exception {type(ce).__name__}: {ce}"] if isinstance(ce, Exception) else (
            mismatches(cc) if ce is None else [])
        if bad:
            return _violation(prop, cfg, cc, bad)
    # 4) difference below the resolution of floating point arithmetic?
    if _within_tolerance(path, diff, c, res):
        return None
    label, i, x, y, tol = diff[0]
    return dict(
        status="error",
        error=f"undecided ({r}): {label}{i}: {x} vs {y} "
        f"on path {[(rel, str(q)[:60], v) for rel, q, v in path.conds]}",
    )


def _zabs(z):
    return z3.If(z >= 0, z, -z)


def _within_tolerance(path, diff, c, res):
    """Solver proof that |actual - expected| is negligible on the unit box.

    Every monomial of the difference is bounded by its coefficient if all variables
    lie in [-1, 1] (scaled box), so the sum of absolute coefficients bounds it.
    """
    for label, i, x, y, tol in diff:
        d = x - y
        bound = sum(abs(v) for v in d.t.values()) / d.d
        mons = [z3.Real(f"m{j}") for j in range(len(d.t))]
        cons = [z3.And(m <= 1, m >= -1) for m in mons]
        tot = z3.Sum([m * z3.Q(v, d.d) for m, v in zip(mons, d.t.values())])
        if bound > 1e-6:
            return False
        # constants of the defined variables must be in range as well
        if any(v.kind not in ("input", "sqrtc") for v in d.variables()):
            return False
        r, _ = smt.check(cons + [z3.Or(tot > z3.Q(1, 10**6), tot < z3.Q(-1, 10**6))], 10000)
        if r != "unsat":
            return False
    res["notes"].append("difference below 1e-6 on the unit box accepted as rounding")
    return True


def to_json(o):
    return json.dumps(o, default=lambda x: str(x), indent=1)
