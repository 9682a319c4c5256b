"""Export of terms, definitions and queries to z3."""

from __future__ import annotations

import os
import subprocess
import sys
import time

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from symtorch import poly as P  # noqa: E402
from symtorch.poly import Poly  # noqa: E402

z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1")))


def R_kind(prime):
    return P.R.by_prime[prime].kind


class Exporter:
    """Translates terms of the current registry to z3."""

    def __init__(self):
        self.vars = {}
        self.monos = {}
        self.polys = {}
        self.done = set()
        self.uf_seen = {}

    def var(self, prime):
        z = self.vars.get(prime)
        if z is None:
            v = P.R.by_prime[prime]
            if v.integer:
                z = z3.ToReal(z3.Int(v.name))
            else:
                z = z3.Real(v.name)
            self.vars[prime] = z
        return z

    def mono(self, k):
        z = self.monos.get(k)
        if z is None:
            fs = []
            for p, e in P.mono_factor(k):
                fs += [self.var(p)] * e
            z = fs[0] if len(fs) == 1 else z3.Product(*fs)
            self.monos[k] = z
        return z

    def poly(self, p: Poly):
        key = p.key()
        z = self.polys.get(key)
        if z is not None:
            return z
        terms = []
        g = key[1]
        for k, c in sorted(key[0]):
            q = z3.Q(c, g)
            if k == 1:
                terms.append(q)
            elif c == g:
                terms.append(self.mono(k))
            else:
                terms.append(q * self.mono(k))
        if not terms:
            z = z3.RealVal(0)
        elif len(terms) == 1:
            z = terms[0]
        else:
            z = z3.Sum(terms)
        self.polys[key] = z
        return z

    def closure(self, polys, skip=()):
        """Defining constraints and domains of all variables below `polys`.

        Variables of a kind in `skip` stay unconstrained (an over-approximation).
        """
        out = []
        stack = list(polys)
        while stack:
            p = stack.pop()
            primes = set()
            for k in p.t:
                for q, _ in P.mono_factor(k):
                    primes.add(q)
            for q in primes:
                if q not in self.done:
                    self.done.add(q)
                    if R_kind(q) in skip:
                        continue
                    self._define(P.R.by_prime[q], out, stack)
        return out

    def _define(self, v, out, stack):
        z = self.var(v.prime)
        if v.lo is not None:
            out.append(z >= z3.Q(v.lo.numerator, v.lo.denominator) if hasattr(v.lo, "numerator") else z >= v.lo)
        if v.hi is not None:
            out.append(z <= z3.Q(v.hi.numerator, v.hi.denominator) if hasattr(v.hi, "numerator") else z <= v.hi)
        if v.nonzero and v.kind == "input":
            out.append(z != 0)
        k = v.kind
        if k == "sqrtc":
            out.append(z * z == v.defn)
        elif k == "invvar":
            out.append(z * self.var(v.defn.prime) == 1)
            stack.append(Poly.of_var(v.defn))
        elif k == "inv":
            out.append(z * self.poly(v.defn) == 1)
            stack.append(v.defn)
        elif k == "sqrt":
            out.append(z * z == self.poly(v.defn))
            stack.append(v.defn)
        elif k == "abs":
            q = self.poly(v.defn)
            out.append(z3.Or(z == q, z == -q))
            stack.append(v.defn)
        elif k == "max":
            qs = [self.poly(q) for q in v.defn]
            out += [z >= q for q in qs]
            out.append(z3.Or(*[z == q for q in qs]))
            stack += v.defn
        elif k in ("mod", "quot"):
            p, m = v.defn
            q, r = P.R.cache[("divmod", p.key(), m)]
            zq, zr = self.var(q.prime), self.var(r.prime)
            self.done |= {q.prime, r.prime}
            out += [self.poly(p) == m * zq + zr, zr >= 0, zr < m]
            stack.append(p)
        elif k == "uf":
            name, _, args = v.defn
            for w in self.uf_seen.setdefault(name, []):
                eqs = [self.poly(a) == self.poly(b) for a, b in zip(args, w.defn[2])]
                out.append(z3.Implies(z3.And(*eqs), z == self.var(w.prime)))
            self.uf_seen[name].append(v)
            stack += args


def cond(ex: Exporter, rel, p, truth):
    z = ex.poly(p)
    c = {"<": z < 0, "<=": z <= 0, "==": z == 0}[rel]
    return c if truth else z3.Not(c)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.cross = 0

    def add(self, other):
        for k in ("queries", "unsat", "sat", "unknown", "time", "cross"):
            setattr(self, k, getattr(self, k) + getattr(other, k))


STATS = Stats()


def check(constraints, timeout_ms=20000, want_model=False, logic=None):
    """Satisfiability of a list of constraints: ('sat'|'unsat'|'unknown', model)."""
    t0 = time.time()
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*constraints)
    r = str(s.check())
    STATS.queries += 1
    setattr(STATS, r, getattr(STATS, r) + 1)
    STATS.time += time.time() - t0
    if r == "sat" and want_model:
        return r, s.model()
    return r, None


def cross_check(constraints, timeout_s=60):
    """Decide the same query with cvc5 (SMT-LIB text); returns its verdict."""
    s = z3.Solver()
    s.add(*constraints)
    text = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        r = subprocess.run(
            ["cvc5", "--lang=smt2", f"--tlimit={timeout_s * 1000}", "-"],
            input=text, capture_output=True, text=True, timeout=timeout_s + 10,
        )
        out = r.stdout + r.stderr
    except Exception as e:  # noqa: BLE001
        return f"error {e}"
    finally:
        STATS.time += time.time() - t0
    STATS.cross += 1
    if "(error" in out:
        return "error"
    for w in ("unsat", "sat", "unknown"):
        if w in out.split():
            return w
    return "unknown"
