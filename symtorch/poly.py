"""Exact terms: sparse polynomials over Q in registered variables.

A monomial is the product of the primes of its variables (an int), a polynomial is
`sum(c * monomial) / d` with integer coefficients `c` and a common denominator `d`.

Some variables are *defined* (square roots, inverses, absolute values, maxima, casts,
applications of user functions). Their definitions are kept in the registry, exported
to the solver as constraints and used to rewrite products into a normal form
(`sqrt(q)^2 -> q`, `|q|^2 -> q^2`, `x * (1/x) -> 1`).
"""

from __future__ import annotations

from fractions import Fraction
from math import gcd, isqrt, sqrt as _fsqrt

import numpy as np

_LIMIT = 3_000_000
_ONE = Fraction(1)


class TooBig(Exception):
    """A term exceeded the size limit (the check cannot decide)."""


class NotSupported(Exception):
    """The encoder has no interpretation for something the code did."""


def _sieve(n):
    s = bytearray([1]) * (n + 1)
    s[0] = s[1] = 0
    for i in range(2, isqrt(n) + 1):
        if s[i]:
            s[i * i :: i] = bytearray(len(s[i * i :: i]))
    return [i for i in range(2, n + 1) if s[i]]


PRIMES = _sieve(2_800_000)


class Var:
    __slots__ = ("prime", "name", "kind", "defn", "lo", "hi", "integer", "nonzero")

    def __init__(self, prime, name, kind, defn=None, lo=None, hi=None, integer=False):
        self.prime, self.name, self.kind, self.defn = prime, name, kind, defn
        self.lo, self.hi, self.integer = lo, hi, integer
        self.nonzero = False


class Registry:
    """All variables of one symbolic execution."""

    def __init__(self):
        self.by_prime: dict[int, Var] = {}
        self.order: list[Var] = []
        self.by_name: dict[str, Var] = {}
        self.special = 1  # product of primes which have rewrite rules
        self.rules: dict[int, list] = {}  # prime -> [(divisor, Poly)]
        self.cache: dict = {}
        self.const_cache: dict = {}

    def new(self, name, kind="input", defn=None, lo=None, hi=None, integer=False):
        if name in self.by_name:
            raise RuntimeError(f"duplicate variable {name}")
        p = PRIMES[len(self.order)]
        v = Var(p, name, kind, defn, lo, hi, integer)
        self.by_prime[p] = v
        self.by_name[name] = v
        self.order.append(v)
        return v

    def add_rule(self, prime, divisor, poly):
        self.rules.setdefault(prime, []).append((divisor, poly))
        if self.special % prime:
            self.special *= prime


R = Registry()


def reset():
    global R
    R = Registry()
    return R


class Poly:
    __slots__ = ("t", "d", "_k")

    def __init__(self, t, d=1):
        self.t = t
        self.d = d
        self._k = None

    # -- basic ---------------------------------------------------------------
    @staticmethod
    def const(c):
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, int):
            return Poly({1: c}) if c else ZERO
        c = Fraction(c)
        if c == 0:
            return ZERO
        return Poly({1: c.numerator}, c.denominator)

    @staticmethod
    def of_var(v: Var):
        return Poly({v.prime: 1})

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and 1 in t)

    def const_value(self):
        return Fraction(self.t.get(1, 0), self.d)

    def key(self):
        """Hashable normal form."""
        if self._k is None:
            g = self.d
            for c in self.t.values():
                g = gcd(g, c)
                if g == 1:
                    break
            if g == 1:
                self._k = (frozenset(self.t.items()), self.d)
            else:
                self._k = (
                    frozenset((k, c // g) for k, c in self.t.items()),
                    self.d // g,
                )
        return self._k

    def same(self, other):
        a, b = self, other
        if a is b:
            return True
        if len(a.t) != len(b.t):
            return False
        if a.d == b.d:
            return a.t == b.t
        return a.key() == b.key()

    # -- arithmetic ----------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, Poly):
            o = lift(o)
            if o is NotImplemented:
                return o
        if not o.t:
            return self
        if not self.t:
            return o
        if self.d == o.d:
            if len(self.t) < len(o.t):
                self, o = o, self
            t = dict(self.t)
            for k, c in o.t.items():
                c2 = t.get(k, 0) + c
                if c2:
                    t[k] = c2
                else:
                    del t[k]
            return Poly(t, self.d) if t else ZERO
        g = gcd(self.d, o.d)
        fa, fb = o.d // g, self.d // g
        t = {k: c * fa for k, c in self.t.items()}
        for k, c in o.t.items():
            c2 = t.get(k, 0) + c * fb
            if c2:
                t[k] = c2
            else:
                del t[k]
        return Poly(t, self.d * fa) if t else ZERO

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.t.items()}, self.d) if self.t else ZERO

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = lift(o)
            if o is NotImplemented:
                return o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, num, den=1):
        if num == 0 or not self.t:
            return ZERO
        if den < 0:
            num, den = -num, -den
        g = gcd(num, den)
        num //= g
        den //= g
        if num == 1 and den == 1:
            return self
        g = gcd(num, self.d)
        num //= g
        d = self.d // g * den
        if num == 1:
            return Poly(self.t, d)
        return Poly({k: c * num for k, c in self.t.items()}, d)

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = lift(o)
            if o is NotImplemented:
                return o
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            o = lift(o)
            if o is NotImplemented:
                return o
        return mul(self, inverse(o))

    def __rtruediv__(self, o):
        return lift(o) / self

    def __pow__(self, e):
        if isinstance(e, Poly):
            if not e.is_const():
                raise NotSupported("symbolic exponent")
            e = e.const_value()
        e = Fraction(e).limit_denominator(64)
        if e.denominator == 1:
            n = e.numerator
            if n < 0:
                return inverse(self) ** (-n)
            r = ONE
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if e.denominator == 2:
            return sqrt(self) ** e.numerator
        raise NotSupported(f"exponent {e}")

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for k, c in list(self.t.items())[:6]:
            names = "*".join(v.name for v in mono_vars(k))
            out.append(f"{Fraction(c, self.d)}{'*' if names else ''}{names}")
        s = " + ".join(out)
        return s + (f" + ...({len(self.t)})" if len(self.t) > 6 else "")

    def variables(self):
        seen = set()
        for k in self.t:
            seen.update(v.prime for v in mono_vars(k))
        return [R.by_prime[p] for p in sorted(seen)]


ZERO = Poly({})
ONE = Poly({1: 1})

_mono_cache: dict = {}
_BLOCK = 48
_block_prod: list = []


def _blocks():
    n = len(R.order)
    need = (n + _BLOCK - 1) // _BLOCK
    while len(_block_prod) < need:
        i = len(_block_prod) * _BLOCK
        prod = 1
        for q in PRIMES[i : i + _BLOCK]:
            prod *= q
        _block_prod.append(prod)
    return need


def mono_factor(k):
    """Factor a monomial into ((prime, exponent), ...)."""
    f = _mono_cache.get(k)
    if f is None:
        if k in R.by_prime:
            f = ((k, 1),)
        else:
            out = []
            n = k
            for b in range(_blocks()):
                if n == 1:
                    break
                g = gcd(n, _block_prod[b])
                if g == 1:
                    continue
                for p in PRIMES[b * _BLOCK : (b + 1) * _BLOCK]:
                    if g % p == 0:
                        e = 0
                        while n % p == 0:
                            n //= p
                            e += 1
                        out.append((p, e))
                        g //= p
                        if g == 1:
                            break
            if n != 1:
                raise RuntimeError("foreign monomial")
            f = tuple(out)
        if len(_mono_cache) > 2_000_000:
            _mono_cache.clear()
        _mono_cache[k] = f
    return f


def mono_vars(k):
    return [R.by_prime[p] for p, _ in mono_factor(k)]


def _reduce(t, d):
    """Apply the rewrite rules to all monomials."""
    sp = R.special
    if sp == 1:
        return Poly(t, d)
    todo = [k for k in t if gcd(k, sp) != 1]
    if not todo:
        return Poly(t, d)
    clean = dict(t)
    extra = []
    changed = False
    get = clean.get
    for k in todo:
        c = clean.pop(k, 0)
        if not c:
            continue
        n, q, rep = _rewrite(k)
        if rep is not None:
            extra.append(mul(Poly({n: c * q.numerator}, d * q.denominator), rep))
            changed = True
        elif n != k:
            changed = True
            if q.denominator == 1:
                c2 = get(n, 0) + c * q.numerator
                if c2:
                    clean[n] = c2
                else:
                    clean.pop(n, None)
            else:
                extra.append(Poly({n: c * q.numerator}, d * q.denominator))
        else:
            c2 = get(k, 0) + c
            if c2:
                clean[k] = c2
            else:
                clean.pop(k, None)
    if not changed:
        return Poly(t, d)
    out = Poly(clean, d) if clean else ZERO
    for e in extra:
        out = out + e
    return out


def _rewrite(k):
    """Apply rules with constant right-hand sides until none matches.

    Returns the remaining monomial, the constant factor, and the right-hand side of one
    non-constant rule (already divided out of the monomial) or `None`.
    """
    q = _ONE
    again = True
    found = None
    while again:
        again = False
        found = None
        g = gcd(k, R.special)
        if g == 1:
            break
        for p, rules in R.rules.items():
            if g % p:
                continue
            for div, rep in rules:
                if k % div:
                    continue
                if rep.is_const():
                    while k % div == 0:
                        k //= div
                        q = q * rep.const_value()
                    again = True
                elif found is None:
                    found = (div, rep)
    if found is not None:
        return k // found[0], q, found[1]
    return k, q, None


def mul(a: Poly, b: Poly) -> Poly:
    ta, tb = a.t, b.t
    if not ta or not tb:
        return ZERO
    if len(ta) == 1 and 1 in ta:
        return b.scale(ta[1], a.d)
    if len(tb) == 1 and 1 in tb:
        return a.scale(tb[1], b.d)
    if len(ta) * len(tb) > _LIMIT:
        raise TooBig(f"product of {len(ta)} x {len(tb)} terms")
    t = {}
    get = t.get
    if len(ta) > len(tb):
        ta, tb = tb, ta
    items = list(tb.items())
    for ka, ca in ta.items():
        for kb, cb in items:
            k = ka * kb
            t[k] = get(k, 0) + ca * cb
    if len(ta) > 1:
        zs = [k for k, c in t.items() if not c]
        for k in zs:
            del t[k]
    if not t:
        return ZERO
    return _reduce(t, a.d * b.d)


def dot(xs, ys) -> Poly:
    """Sum of products."""
    accs: dict[int, dict] = {}
    n = 0
    for a, b in zip(xs, ys):
        ta, tb = a.t, b.t
        if not ta or not tb:
            continue
        d = a.d * b.d
        t = accs.get(d)
        if t is None:
            t = accs[d] = {}
        get = t.get
        n += len(ta) * len(tb)
        if n > _LIMIT:
            raise TooBig(f"inner product with more than {_LIMIT} terms")
        if len(tb) == 1:
            ((kb, cb),) = tb.items()
            for ka, ca in ta.items():
                k = ka * kb
                t[k] = get(k, 0) + ca * cb
        else:
            for ka, ca in ta.items():
                for kb, cb in tb.items():
                    k = ka * kb
                    t[k] = get(k, 0) + ca * cb
    return _collect(accs)


def _collect(accs) -> Poly:
    out = ZERO
    for d, t in accs.items():
        zs = [k for k, c in t.items() if not c]
        for k in zs:
            del t[k]
        if t:
            out = out + _reduce(t, d)
    return out


def psum(xs) -> Poly:
    accs: dict[int, dict] = {}
    n = 0
    last = None
    for a in xs:
        ta = a.t
        if not ta:
            continue
        n += 1
        last = a
        t = accs.get(a.d)
        if t is None:
            t = accs[a.d] = {}
        get = t.get
        for k, c in ta.items():
            t[k] = get(k, 0) + c
    if n == 0:
        return ZERO
    if n == 1:
        return last
    return _collect(accs)


# -- constants ---------------------------------------------------------------


def _square_free(n: int):
    """n = s^2 * f with f square-free (n small)."""
    s, f, p = 1, n, 2
    while p * p <= f and p < 100_000:
        while f % (p * p) == 0:
            f //= p * p
            s *= p
        p += 1
    return s, f


def sqrt_rational(q: Fraction) -> Poly:
    """Exact square root of a non-negative rational."""
    if q < 0:
        raise NotSupported("square root of a negative number")
    if q == 0:
        return ZERO
    n = q.numerator * q.denominator
    s, f = _square_free(n)
    if f == 1:
        return Poly.const(Fraction(s, q.denominator))
    key = ("sqrtn", f)
    v = R.cache.get(key)
    if v is None:
        v = R.new(f"sqrt({f})", "sqrtc", defn=f, lo=0)
        R.cache[key] = v
        R.add_rule(v.prime, v.prime**2, Poly.const(f))
        v.nonzero = True
    return Poly.of_var(v).scale(s, q.denominator)


def simplest(lo: Fraction, hi: Fraction) -> Fraction:
    """Fraction with the smallest denominator in [lo, hi], 0 < lo <= hi."""
    a, b, c, d = lo.numerator, lo.denominator, hi.numerator, hi.denominator
    q = -(-a // b)
    if q * d <= c:
        return Fraction(q)
    q -= 1
    r = simplest(Fraction(d, c - q * d), Fraction(b, a - q * b))
    return q + 1 / r


def lift_float(x: float, rel: float = 2e-15) -> Poly:
    """Recover the exact constant a floating point number stands for.

    A rational (or square root of a rational) is accepted if it lies within `rel`
    of the number, otherwise the number is taken literally.
    """
    key = (x, rel)
    p = R.const_cache.get(key)
    if p is not None:
        return p
    if x != x or x in (float("inf"), float("-inf")):
        raise NotSupported(f"non-finite constant {x}")
    if x != 0 and not (1e-100 < abs(x) < 1e100):
        raise NotSupported(f"suspicious constant {x}")
    if x == int(x) and abs(x) < 2**53:
        p = Poly.const(int(x))
    else:
        e = Fraction(abs(x))
        rl = Fraction(rel)
        q = simplest(e * (1 - rl), e * (1 + rl))
        nd = q.numerator * q.denominator
        e2 = e * e
        q2 = simplest(e2 * (1 - 2 * rl), e2 * (1 + 2 * rl))
        nd2 = q2.numerator * q2.denominator
        if nd2 * (4 if rel > 1e-4 else 50) < nd and nd2 < 10**8:
            p = sqrt_rational(q2)
        elif rel > 1e-4 or nd * 100 * rl < 1:
            p = Poly.const(q)
        else:
            dec = Fraction(repr(abs(x)))
            p = Poly.const(dec if dec.denominator < 10**18 else e)
        if x < 0:
            p = -p
    R.const_cache[key] = p
    return p


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, np.ndarray):
        return NotImplemented
    s = getattr(x, "_sym_poly", None)
    if s is not None:
        return s
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        return lift_float(x)
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():  # numpy scalar
        return lift(x.item())
    return NotImplemented


# -- defined variables -------------------------------------------------------


def _monic_key(p: Poly):
    """Normal form up to sign (leading monomial by key order gets positive)."""
    lead = max(p.t)
    return p if p.t[lead] > 0 else -p


def inverse(p: Poly) -> Poly:
    if p.is_const():
        c = p.const_value()
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return Poly.const(1 / c)
    if len(p.t) == 1:  # monomial: invert factor by factor
        ((k, c),) = p.t.items()
        out = Poly.const(Fraction(p.d, c))
        for prime, e in mono_factor(k):
            out = out * inv_var(R.by_prime[prime]) ** e
        return out
    q = _monic_key(p)
    s = 1 if q is p else -1
    key = ("inv", q.key())
    v = R.cache.get(key)
    if v is None:
        v = R.new(f"inv{len(R.order)}", "inv", defn=q)
        R.cache[key] = v
        v.nonzero = True
    return Poly.of_var(v).scale(s)


def inv_var(x: Var) -> Poly:
    if x.kind == "invvar":
        return Poly.of_var(x.defn)
    if x.kind == "inv":
        return x.defn
    if x.kind == "sqrtc":
        return Poly.of_var(x).scale(1, x.defn)
    if x.kind == "sqrt":
        return Poly.of_var(x) * inverse(x.defn)
    if x.kind == "abs":
        return Poly.of_var(x) * inverse(x.defn * x.defn)
    key = ("invvar", x.prime)
    v = R.cache.get(key)
    if v is None:
        v = R.new(f"1/{x.name}", "invvar", defn=x, lo=0 if x.lo is not None and x.lo >= 0 else None)
        v.nonzero = True
        R.cache[key] = v
        R.add_rule(v.prime, v.prime * x.prime, ONE)
    return Poly.of_var(v)


def nonneg_var(v: Var) -> bool:
    return v.lo is not None and v.lo >= 0


def sqrt(p: Poly) -> Poly:
    if p.is_const():
        return sqrt_rational(p.const_value())
    if len(p.t) == 1:
        ((k, c),) = p.t.items()
        fac = mono_factor(k)
        if c > 0 and all(e % 2 == 0 for _, e in fac):
            out = sqrt_rational(Fraction(c, p.d))
            for prime, e in fac:
                v = R.by_prime[prime]
                b = Poly.of_var(v) ** (e // 2)
                out = out * (b if nonneg_var(v) or (e // 2) % 2 == 0 else absval(b))
            return out
    key = ("sqrt", p.key())
    v = R.cache.get(key)
    if v is None:
        v = R.new(f"sqrt{len(R.order)}", "sqrt", defn=p, lo=0)
        R.cache[key] = v
        R.add_rule(v.prime, v.prime**2, p)
    return Poly.of_var(v)


def absval(p: Poly) -> Poly:
    if p.is_const():
        return Poly.const(abs(p.const_value()))
    if len(p.t) == 1:
        ((k, c),) = p.t.items()
        if all(
            e % 2 == 0 or nonneg_var(R.by_prime[pr]) for pr, e in mono_factor(k)
        ):
            return p if c > 0 else -p
    q = _monic_key(p)
    key = ("abs", q.key())
    v = R.cache.get(key)
    if v is None:
        v = R.new(f"abs{len(R.order)}", "abs", defn=q, lo=0)
        R.cache[key] = v
        R.add_rule(v.prime, v.prime**2, q * q)
    return Poly.of_var(v)


def single_var(p: Poly):
    if len(p.t) == 1 and p.d == 1:
        ((k, c),) = p.t.items()
        if c == 1 and k in R.by_prime:
            return R.by_prime[k]
    return None


def maximum(ps) -> Poly:
    """Maximum of a list of polynomials (flattened, duplicates removed)."""
    items = {}
    const = None
    for p in ps:
        if p.is_const():
            c = p.const_value()
            const = c if const is None else max(const, c)
            continue
        v = single_var(p)
        if v is not None and v.kind == "max":
            for q in v.defn:
                if q.is_const():
                    c = q.const_value()
                    const = c if const is None else max(const, c)
                else:
                    items[q.key()] = q
        else:
            items[p.key()] = p
    if not items:
        return Poly.const(const)
    if const is not None:
        if const <= 0 and any(
            (v := single_var(q)) is not None and nonneg_var(v) for q in items.values()
        ):
            const = None
    if const is not None:
        items[("c", const)] = Poly.const(const)
    if len(items) == 1:
        return next(iter(items.values()))
    key = ("max", frozenset(items))
    v = R.cache.get(key)
    if v is None:
        lo = None
        if any(
            (w := single_var(q)) is not None and nonneg_var(w) for q in items.values()
        ) or (const is not None and const >= 0):
            lo = 0
        v = R.new(f"max{len(R.order)}", "max", defn=list(items.values()), lo=lo)
        R.cache[key] = v
    return Poly.of_var(v)


def minimum(ps) -> Poly:
    return -maximum([-p for p in ps])


def rounded(p: Poly, dtype: str) -> Poly:
    """Opaque result of a cast to a lower precision."""
    if p.is_const():
        c = p.const_value()
        if c.denominator == 1 and abs(c.numerator) <= 128:
            return p
    v = single_var(p)
    if v is not None and v.kind == "rnd" and v.defn[1] == dtype:
        return p
    key = ("rnd", dtype, p.key())
    v = R.cache.get(key)
    if v is None:
        v = R.new(f"{dtype}({len(R.order)})", "rnd", defn=(p, dtype))
        R.cache[key] = v
    return Poly.of_var(v)


def apply_uf(name, fn, args) -> Poly:
    """Application of a user-supplied function, memoised on its arguments."""
    key = ("uf", name, tuple(a.key() for a in args))
    v = R.cache.get(key)
    if v is None:
        v = R.new(f"{name}@{len(R.order)}", "uf", defn=(name, fn, list(args)))
        R.cache[key] = v
    return Poly.of_var(v)


# -- evaluation --------------------------------------------------------------


def evaluate(p: Poly, env: dict, memo: dict):
    """Evaluate at `env: name -> float`."""
    tot = 0.0
    for k, c in p.t.items():
        x = float(c)
        for prime, e in mono_factor(k):
            x *= var_value(R.by_prime[prime], env, memo) ** e
        tot += x
    return tot / p.d


def var_value(v: Var, env, memo):
    if v.prime in memo:
        return memo[v.prime]
    if v.kind == "input":
        r = env[v.name]
    elif v.kind == "sqrtc":
        r = _fsqrt(v.defn)
    elif v.kind == "invvar":
        x = var_value(v.defn, env, memo)
        if x == 0:
            raise ZeroDivisionError
        r = 1.0 / x
    elif v.kind == "inv":
        r = 1.0 / evaluate(v.defn, env, memo)
    elif v.kind == "sqrt":
        r = _fsqrt(max(0.0, evaluate(v.defn, env, memo)))
    elif v.kind == "abs":
        r = abs(evaluate(v.defn, env, memo))
    elif v.kind == "max":
        r = max(evaluate(q, env, memo) for q in v.defn)
    elif v.kind == "rnd":
        r = evaluate(v.defn[0], env, memo)
    elif v.kind == "uf":
        name, fn, args = v.defn
        r = float(fn(*[evaluate(a, env, memo) for a in args]))
    elif v.kind in ("mod", "quot"):
        a, m = v.defn
        x = int(round(evaluate(a, env, memo)))
        r = float(x % m) if v.kind == "mod" else float(x // m)
    else:
        raise NotSupported(f"evaluate {v.kind}")
    memo[v.prime] = r
    return r


def deepen(full: dict, start: int) -> int:
    """Extend a substitution to the variables defined by substituted ones.

    Handles the registry from position `start`; returns the position reached.
    """
    prod = 1
    for q in full:
        prod *= q
    n = len(R.order)

    def hit(p):
        return any(gcd(k, prod) != 1 for k in p.t)

    for v in R.order[start:n]:
        if v.prime in full:
            continue
        new = None
        try:
            if v.kind == "invvar":
                if v.defn.prime in full:
                    new = inverse(full[v.defn.prime])
            elif v.kind in ("inv", "sqrt", "abs"):
                if hit(v.defn):
                    f = {"inv": inverse, "sqrt": sqrt, "abs": absval}[v.kind]
                    new = f(substitute(v.defn, full))
            elif v.kind == "max":
                if any(hit(q) for q in v.defn):
                    new = maximum([substitute(q, full) for q in v.defn])
            elif v.kind == "uf":
                name, fn, args = v.defn
                if any(hit(q) for q in args):
                    new = apply_uf(name, fn, [substitute(q, full) for q in args])
        except (ZeroDivisionError, NotSupported):
            new = None
        if new is not None and not new.same(Poly({v.prime: 1})):
            full[v.prime] = new
            prod *= v.prime
    return n


def substitute(p: Poly, sub: dict) -> Poly:
    """Replace variables (prime -> Poly)."""
    if not sub:
        return p
    prod = 1
    for q in sub:
        prod *= q
    out = {}
    extra = []
    for k, c in p.t.items():
        if gcd(k, prod) == 1:
            out[k] = c
            continue
        r = Poly({1: c}, p.d)
        for prime, e in mono_factor(k):
            r = r * (sub[prime] ** e if prime in sub else Poly({prime: 1}) ** e)
        extra.append(r)
    res = Poly(out, p.d) if out else ZERO
    if extra:
        res = res + psum(extra)
    return res
